"""Mechanical mutants of the code behind the properties; prints those no check reports.
usage: automut.py SEED COUNT [FILE-REGEX] (LINES=regex: of matching lines only)"""
import os, random, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, I, U, X = 'src/common/maf/messaging/client-server/', 'include/maf/messaging/client-server/', 'include/maf/utils/', 'src/platforms/unix/maf/messaging/client-server/ipc/'
FILES = {
    C + 'ServiceProvider.cpp': 'P01 P02 P04 P05 P09', C + 'ServiceRequester.cpp': 'P03 P04 P05 P09', C + 'ServerBase.cpp': 'P06 P05 P09', C + 'ClientBase.cpp': 'P05 P06 P08 P09',
    C + 'Request.cpp': 'P01', C + 'CSMessage.cpp': 'I01 P07', C + 'CSError.cpp': 'E02', C + 'Address.cpp': 'A01 I01', C + 'ClientFactory.cpp': 'P10 P09 P08', C + 'ServerFactory.cpp': 'P10 P09 P08',
    C + 'ipc/LocalIPCServer.cpp': 'P08 P09', C + 'ipc/LocalIPCClient.cpp': 'P08 P09', C + 'ipc/LocalIPCMessage.cpp': 'I01', C + 'itc/Server.cpp': 'P07 P09', C + 'itc/Client.cpp': 'P07',
    X + 'LocalIPCBufferReceiverImpl.cpp': 'I02 I04 I05', X + 'LocalIPCBufferSenderImpl.cpp': 'I03 I04 I05', X + 'SocketShared.h': 'I04 I03 I02',
    'src/common/maf/messaging/Processor.cpp': 'M01 M02 M03 M04 M05', 'src/common/maf/messaging/Router.cpp': 'M05', 'src/common/maf/messaging/Routing.cpp': 'M05',
    'src/common/maf/messaging/Timer.cpp': 'C01 C02', 'src/common/maf/messaging/SyncTimer.cpp': 'C03', 'include/maf/messaging/ProcessorEx.h': 'M02 M01', 'include/maf/messaging/SignalTimer.h': 'C01 C02',
    'include/maf/messaging/Processor.h': 'M03 M04 M05', 'include/maf/messaging/MsgConnectionGroup.h': 'M03',
    'src/common/maf/threading/threadpool/DynamicCountThreadPool.cpp': 'T01', 'src/common/maf/threading/threadpool/PriorityThreadPool.cpp': 'T01', 'src/common/maf/threading/threadpool/StableThreadPool.cpp': 'T01', 'src/common/maf/threading/threadpool/ThreadPoolFactory.cpp': 'T01',
    'include/maf/threading/ThreadPoolImplBase.h': 'T01', 'include/maf/threading/ThreadSafeQueue.h': 'Q01 Q02', 'include/maf/threading/AtomicObject.h': 'L01 G01', 'include/maf/threading/Lockable.h': 'L01', 'include/maf/threading/Upcoming.h': 'U01', 'include/maf/threading/Runnable.h': 'T01',
    U + 'SignalSlots.h': 'G01 G02', U + 'Observable.h': 'G03', U + 'IDManager.h': 'A02', U + 'StringifyableEnum.h': 'E01', U + 'TimeMeasurement.h': 'U02', U + 'ProcessorChain.h': 'U02',
    U + 'serialization/Serializer.h': 'S01 S02 S03', U + 'serialization/IByteStream.h': 'S04 S03', U + 'serialization/OByteStream.h': 'S04', U + 'serialization/Buffer.h': 'S04 S01', U + 'serialization/VariantSerializer.h': 'S01 S02 S03', U + 'serialization/Dumper.h': 'D01', U + 'serialization/VariantDump.h': 'D01',
    I + 'BasicProxy.h': 'P07 P08', I + 'BasicStub.h': 'P07 P08', I + 'RequestT.h': 'P07 P08', I + 'ResponseT.h': 'P07 P08', I + 'RegID.h': 'A01 P04', I + 'CSError.h': 'E02', I + 'ServiceStatusSignal.h': 'P05 P07', I + 'ServiceStatusObserverDelegater.h': 'P05 P07',
    I + 'ipc/local/ParamTrait.h': 'P08', I + 'ipc/local/IncomingPayload.h': 'P08 I01', I + 'ipc/local/OutgoingPayload.h': 'P08 I01', I + 'itc/Payload.h': 'P07 P04', I + 'itc/ParamTrait.h': 'P07', I + 'ParamTraitBase.h': 'P07 P08', I + 'CSMsgPayloadIF.h': 'P07',
    C + 'ipc/LocalIPCBufferReceiver.cpp': 'I05', C + 'ipc/LocalIPCBufferSender.cpp': 'I05',
    'src/common/maf/logging/Logger.cpp': 'O01',
}
def mutants(path, text):
    out = []
    lines = text.split('\n')
    for n, l in enumerate(lines):
        s = l.strip()
        if not l.startswith('  ') or s.startswith(('//', '*', '#', 'using', 'template', 'static_assert', 'assert', 'MAF_', 'friend', 'typedef')) or 'MAF_LOGGER' in l: continue
        if n + 1 < len(lines) and 'MAF_LOGGER' in lines[n - 1] and not lines[n - 1].rstrip().endswith((';', '{', '}')): continue
        def sub(new): out.append((n, l, new))
        ind = l[:len(l) - len(l.lstrip())]
        if re.match(r'^[\w:>\-.()*&\[\]]+(\(.*\)|\s*=[^=].*)?;$', s) and not s.startswith(('return', 'throw', 'delete', 'case', 'default')) and lines[n - 1].rstrip().endswith((';', '{', '}', ':')) and '(' in s + '=': sub(ind + ';')
        if re.match(r'^std::(lock_guard|scoped_lock|unique_lock)\b.*;$', s) and 'unique' not in s: sub(ind + ';')
        if '.atomic()->' in l: sub(l.replace('.atomic()->', '->', 1))
        m = re.match(r'^(.*\b(?:if|while) \()([^;=]*(?:[=!<>]=[^;=]*)*)(\) \{)$', l)
        if m and 'auto' not in m.group(2): sub(m.group(1) + '!(' + m.group(2) + ')' + m.group(3))
        for a, b in (('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'), (' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '), ('true', 'false'), ('false', 'true'), ('notify_all', 'notify_one'), ('++', '--'), (' + ', ' - '), (' - ', ' + '),
                     ('push_back', 'push_front'), ('.back()', '.front()'), ('.front()', '.back()'), ('Unavailable', 'Available'), ('ReceiverBusy', 'ReceiverUnavailable'), ('return {};', 'return decltype(auto){};')):
            i = l.find(a)
            if i >= 0 and not (a == 'Unavailable' and 'Handler' in l) and not (a == '&&' and re.search(r'\w ?&&\s*\w+[,)]', l)): sub(l[:i] + b + l[i + len(a):])
        if s == 'break;' and 'case' not in ''.join(lines[n + 1:n + 2]) and 'default' not in ''.join(lines[n + 1:n + 2]): sub(ind + ';')
    return [(n, a, b) for n, a, b in out if a != b]
def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    rx = re.compile(sys.argv[3] if len(sys.argv) > 3 else '.')
    rnd = random.Random(seed)
    W = os.environ.get('MUT_DIR', '/tmp/w/auto')
    os.makedirs(W, exist_ok=True)
    S = W + '/repo'
    if not os.path.isdir(S): subprocess.run(['cp', '-a', '/repo', S], check=True)
    allm = []
    for f, props in FILES.items():
        if not rx.search(f): continue
        t = open(S + '/' + f).read()
        allm += [(f, props, m) for m in mutants(f, t) if re.search(os.environ.get('LINES', '.'), m[1])]
    rnd.shuffle(allm)
    print('%d mutants, %d taken' % (len(allm), count), flush=True)
    for f, props, (n, a, b) in allm[:count]:
        subprocess.run('git -C %s checkout -q -- .' % S, shell=True, check=True)
        L = open(S + '/' + f).read().split('\n')
        L[n] = b
        open(S + '/' + f, 'w').write('\n'.join(L))
        res = 'MISSED'
        for p in props.split():
            r = subprocess.run('timeout 900 python3 %s/check.py %s quick' % (V, p), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, MAF_REPO=S, VERIF_BUILD=W + '/build', VERIF_EVIDENCE=W + '/ev'))
            if r.returncode == 1: res = 'CAUGHT ' + p; break
            if r.returncode != 0:
                res = 'NOANSWER ' + p + ' ' + ' '.join(x for x in r.stdout.split('\n') if 'ERROR' in x or 'error' in x)[:100]
                if 'does not compile' in r.stdout: break
        print('%-22s %s:%d  %s  ->  %s' % (res, f.replace('src/common/maf/', '').replace('include/maf/', ''), n + 1, a.strip()[:70], b.strip()[:70]), flush=True)
    subprocess.run('git -C %s checkout -q -- .' % S, shell=True)
main()
