// names the harness entry for a native replay (compiled with -DENTRY=...)
extern "C" void ENTRY();
extern "C" void (*rt_entry())() { return ENTRY; }
