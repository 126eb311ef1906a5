SEEDS = [
 dict(id='d01-later-elements', property='D01',
  edits=[('include/maf/utils/serialization/Dumper.h', '''        ds << ",";
        writeIndent(ds, nextIndentLevel, NEWLINE);
        dump(ds, *beg, nextLevel(indentLevel));''', '''        ds << ",";
        writeIndent(ds, nextIndentLevel, NEWLINE);
        dump(ds, *beg, indentLevel);''')],
  needs='a nested container that is not the first element of its container', breaks='its elements are indented one level too little',
  demo='''
#include <maf/utils/serialization/Dumper.h>
#include <sstream>
#include <vector>
int main() {
  std::vector<std::vector<int>> v{{1}, {2}};
  std::ostringstream o;
  maf::srz::dump(o, v, 0);
  return o.str() == "[\\n  [\\n    1\\n  ],\\n  [\\n    2\\n  ]\\n]" ? 0 : 1;
}
'''),
 dict(id='o01-lost-update', property='O01',
  edits=[('src/common/maf/logging/Logger.cpp', 'void disable(LogLevel level) { statics().allowedLevels &= ~level; }', '''void disable(LogLevel level) {
  auto &levels = statics().allowedLevels;
  levels.store(levels.load(std::memory_order_relaxed) & ~level,
               std::memory_order_relaxed);
}''')],
  needs='a level disabled while another thread disables another one', breaks='one of the two stays enabled',
  demo='''
#include <maf/logging/Logger.h>
#include <atomic>
#include <thread>
using namespace maf::logging;
int main() {
  static std::atomic<int> turn{0}, done{0};
  std::thread other([] {
    for (int k = 1; k <= 300000; k++) {
      while (turn < k) {}
      if (turn > 300000) return;
      disable(LOG_LEVEL_DEBUG);
      done = k;
    }
  });
  int lost = 0;
  for (int k = 1; k <= 300000; k++) {
    changeLogLevels(LOG_LEVEL_DEBUG | LOG_LEVEL_INFO);
    turn = k;
    for (volatile int d = 0; d < k % 40; d = d + 1) {}
    disable(LOG_LEVEL_INFO);
    while (done < k) {}
    lost += allowed(LOG_LEVEL_DEBUG) || allowed(LOG_LEVEL_INFO);
  }
  other.join();
  return lost ? 1 : 0;
}
'''),
 dict(id='u02-near-key', property='U02',
  edits=[('include/maf/utils/containers/Map2D.h', 'if (auto itValueMap = map2d.find(k1); itValueMap != map2d.end()) {', 'if (auto itValueMap = map2d.lower_bound(k1); itValueMap != map2d.end()) {')],
  needs='a first key that is absent while a later one has the second key', breaks="another entry's value is returned",
  demo='''
#include <maf/utils/containers/Map2D.h>
#include <string>
int main() {
  maf::util::Map2D<int, std::string, int> m;
  m[1]["a"] = 10;
  m[5]["b"] = 20;
  return maf::util::find(m, 1, std::string("a")) == 10 && maf::util::find(m, 3, std::string("b")) == 0 && maf::util::find(m, 9, std::string("b")) == 0 ? 0 : 1;
}
'''),
 dict(id='a02-two-steps', property='A02',
  edits=[('include/maf/utils/IDManager.h', '''      id = idCounter_.fetch_add(1, std::memory_order_relaxed);''', '''      id = idCounter_.load(std::memory_order_relaxed);
      idCounter_.store(static_cast<IDType>(id + 1), std::memory_order_relaxed);''')],
  needs='two threads allocating at once', breaks='both get the same identifier',
  demo='''
#include <maf/utils/IDManager.h>
#include <algorithm>
#include <thread>
#include <vector>
int main() {
  maf::util::IDManager m;
  std::vector<uint64_t> a, b;
  auto work = [&m](std::vector<uint64_t> &v) { for (int k = 0; k < 2000000; k++) v.push_back(m.allocateNewID()); };
  std::thread t(work, std::ref(a));
  work(b);
  t.join();
  a.insert(a.end(), b.begin(), b.end());
  std::sort(a.begin(), a.end());
  return std::adjacent_find(a.begin(), a.end()) == a.end() ? 0 : 1;
}
'''),
 dict(id='e02-same-length', property='E02',
  edits=[('src/common/maf/messaging/client-server/CSError.cpp', '           (otherError->d_->description == d_->description);', '           (otherError->d_->description.compare(\n                0, d_->description.size(), d_->description) == 0);')],
  needs="two errors of one code of which one's description begins with the other's", breaks='they compare equal (from one side)',
  demo='''
#include <maf/messaging/client-server/CSError.h>
using namespace maf::messaging;
int main() {
  CSError a("no", CSErrorCode::OperationFailed), b("no route", CSErrorCode::OperationFailed), c("no", CSErrorCode::OperationFailed);
  return a.equal(&c) && !a.equal(&b) && !b.equal(&a) ? 0 : 1;
}
'''),
 dict(id='g03-first-of-several', property='G03',
  edits=[('include/maf/utils/Observable.h', '''    auto current = tie(std::get<idx>(state_)...);
    auto newVals = tie(vals...);
    if (current != newVals) {
      current = move(newVals);''', '''    auto current = tie(std::get<idx>(state_)...);
    auto newVals = tie(vals...);
    if (std::get<0>(current) != std::get<0>(newVals)) {
      current = move(newVals);''')],
  needs='several parts set at once of which the first keeps its value', breaks='the others are not set and nobody is told',
  demo='''
#include <maf/Observable.h>
#include <string>
int main() {
  maf::signal_slots::Observable<int, std::string> o{1, std::string("a")};
  int told = 0;
  o.silentlyConnect([&](int, const std::string &) { told++; });
  o.set<0, 1>(2, std::string("b"));
  if (told != 1) return 3;
  o.set<0, 1>(2, std::string("c"));
  return told == 2 && o.get<1>() == "c" ? 0 : 1;
}
'''),
 dict(id='p08-consumed', property='P08',
  edits=[('include/maf/messaging/client-server/ipc/local/ParamTrait.h', 'auto ds = srz::DSR{streamView};', 'auto ds = srz::DSR{*incomingPayload->stream()};')],
  needs='one message translated for two observers', breaks='the second one gets nothing',
  demo='''
#include <maf/LocalIPCProxy.h>
#include <maf/LocalIPCStub.h>
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
PROPERTY(level)
STATUS((int, v))
ENDPROPERTY(level)
#include <maf/messaging/client-server/CSContractDefinesEnd.mc.h>
using namespace maf;
using namespace maf::messaging;
int main() {
  using Trait = ipc::local::ParamTrait;
  srz::OByteStream o;
  auto out = Trait::translate(level_property::make_status(7));
  if (!std::static_pointer_cast<ipc::local::OutgoingPayload>(out)->serialize(o)) return 3;
  auto in = std::make_shared<ipc::local::IncomingPayload>(std::make_shared<srz::IByteStream>(o.bytes()));
  for (int k = 0; k < 2; k++) {
    auto got = Trait::translate<level_property::status>(CSPayloadIFPtr(in->clone()));
    if (!got || got->get_v() != 7) return 1;
  }
  return 0;
}
'''),
]
