"""Planted bugs outside secure aggregation."""
import os
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import write, SD, V
B = "fcp/base/"
HEAD = '. "$(dirname "$0")/cxx.sh"\n'
BASE = "fcp/base/scheduler.cc fcp/base/monitoring.cc fcp/base/clock.cc fcp/base/platform.cc"
LOG = '''struct L : fcp::client::LogManager {
  void LogDiag(fcp::client::ProdDiagCode) override {}
  void LogDiag(fcp::client::DebugDiagCode) override {}
  void LogToLongHistogram(fcp::client::HistogramCounters, int, int, fcp::client::engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
};
'''


def cxx(srcs, protos="", arg=False, libs=""):
    return HEAD + (('LIBS="$LIBS %s"\n' % libs) if libs else "") + (("cxx_protos %s\n" % protos) if protos else "") + \
        'cxx_build "$WORK/t" main.cc %s\ntimeout 100 "$WORK/t"%s\n' % (srcs, ' "$WORK"' if arg else "")


PYD = '''HERE=$(cd "$(dirname "$0")" && pwd)
cd _build/py && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 60 /opt/fcp/pyvenv/bin/python "$HERE/main.py"
'''


def protos(id):
    shutil.copytree(os.path.join(V, "stubs", "proto"), os.path.join(SD, id, "proto"))


write("time-before-1970", "B10", "an instant before 1970 that is not on a whole second",
      "the seconds are cut towards zero, so the nanoseconds of an earlier instant come out negative",
      [(B + "time_util.cc", "  const int64_t s = absl::ToUnixSeconds(t);\n", "  const int64_t s = absl::ToInt64Seconds(t - absl::UnixEpoch());\n")],
      cxx("fcp/base/time_util.cc"), {"main.cc": '''#include "fcp/base/time_util.h"
#include "absl/time/time.h"
int main() {
  for (int64_t n : {int64_t{0}, int64_t{1500000000}, int64_t{-1}, int64_t{-1500000000}, int64_t{-2000000000}}) {
    auto p = fcp::TimeUtil::ConvertAbslToProtoTimestamp(absl::FromUnixNanos(n));
    if (p.nanos() < 0 || p.nanos() > 999999999) return 1;
    if (fcp::TimeUtil::ConvertProtoToAbslTime(p) != absl::FromUnixNanos(n)) return 1;
  }
  return 0;
}
'''})

write("retry-window-order", "D09", "a retry window whose both ends are negative",
      "the upper end is fixed up before the lower one, so it can stay below it and the time chosen lies in the past",
      [("fcp/client/federated_protocol_util.cc", "  min_delay = std::max(absl::ZeroDuration(), min_delay);\n  max_delay = std::max(max_delay, min_delay);\n",
        "  max_delay = std::max(max_delay, min_delay);\n  min_delay = std::max(absl::ZeroDuration(), min_delay);\n")],
      cxx("fcp/client/federated_protocol_util.cc fcp/base/time_util.cc"), {"main.cc": '''#include "fcp/client/federated_protocol_util.h"
#include "absl/time/clock.h"
int main() {
  absl::BitGen g;
  google::protobuf::Duration lo, hi;
  lo.set_seconds(-1000000);
  hi.set_seconds(-900000);
  for (int i = 0; i < 100; ++i) {
    absl::Time now = absl::Now();
    if (fcp::client::PickRetryTimeFromRange(lo, hi, g) < now) return 1;
  }
  return 0;
}
'''})

write("clock-same-deadline", "B05", "two waiters with exactly the same deadline",
      "a waiter whose deadline is already waited for is not entered, so it is never woken",
      [(B + "clock.cc", '''    WaiterMap::iterator it;
    if ((it = pending_waiters_.find(deadline)) != pending_waiters_.end()) {
      it->second.push_back(waiter);
    } else {
      pending_waiters_.insert(std::make_pair(deadline, WaiterList{waiter}));
    }
''', "    pending_waiters_.insert(std::make_pair(deadline, WaiterList{waiter}));\n")],
      cxx(BASE + " fcp/base/simulated_clock.cc"), {"main.cc": '''#include "fcp/base/simulated_clock.h"
struct W : fcp::Clock::Waiter {
  int n = 0;
  void WakeUp() override { ++n; }
};
int main() {
  fcp::SimulatedClock c;
  auto a = std::make_shared<W>(), b = std::make_shared<W>();
  c.WakeupWithDeadline(c.Now() + absl::Seconds(5), a);
  c.WakeupWithDeadline(c.Now() + absl::Seconds(5), b);
  c.AdvanceTime(absl::Seconds(4));
  if (a->n || b->n) return 2;
  c.AdvanceTime(absl::Seconds(2));
  return a->n == 1 && b->n == 1 ? 0 : 1;
}
'''})

write("worker-tasks-overlap", "B02", "a pool of several threads and a worker with more than one task",
      "a worker starts its next task before the current one has run, so tasks of one worker overlap",
      [(B + "scheduler.cc", '''      // Call the Task which is stored in wrapped_task.value.
      (*wrapped_task)();

      // Run the next task.
      FCP_CHECK(*marker) << "Worker destroyed before all tasks finished";
      {
        // Try run next task if any.
        absl::MutexLock lock(&this->busy_);
        this->running_ = false;
        this->MaybeRunNext();
      }
''', '''      FCP_CHECK(*marker) << "Worker destroyed before all tasks finished";
      {
        // Try run next task if any.
        absl::MutexLock lock(&this->busy_);
        this->running_ = false;
        this->MaybeRunNext();
      }
      // Call the Task which is stored in wrapped_task.value.
      (*wrapped_task)();
''')],
      cxx(BASE), {"main.cc": '''#include <atomic>
#include "absl/time/clock.h"
#include "fcp/base/scheduler.h"
int main() {
  auto s = fcp::CreateThreadPoolScheduler(4);
  std::atomic<int> inside{0}, bad{0};
  {
    auto w = s->CreateWorker();
    for (int i = 0; i < 20; ++i)
      w->Schedule([&] {
        if (inside.fetch_add(1) != 0) bad = 1;
        absl::SleepFor(absl::Milliseconds(20));
        inside.fetch_sub(1);
      });
    s->WaitUntilIdle();
  }
  return bad;
}
'''})

write("slice-appended", "D19", "more than one slice fetched for one selection",
      "the scratch file is not emptied, so every slice after the first is handed out behind the ones before it",
      [("fcp/client/federated_select.cc", "std::ios_base::out | std::ios_base::trunc);", "std::ios_base::out | std::ios_base::app);")],
      cxx("fcp/client/federated_select.cc fcp/client/http/in_memory_request_response.cc fcp/client/http/http_client_util.cc fcp/client/interruptible_runner.cc fcp/base/wall_clock_stopwatch.cc " + BASE,
          "fcp/protos/federatedcompute/confidential_aggregations.proto fcp/protos/plan.proto", True), {"main.cc": '''#include <fstream>
#include <iterator>
#include "fcp/client/federated_select.h"
int main(int, char** v) {
  std::string file = std::string(v[1]) + "/scratch";
  std::deque<absl::Cord> d;
  d.push_back(absl::Cord("first slice"));
  d.push_back(absl::Cord("second"));
  fcp::client::InMemoryFederatedSelectExampleIterator it(file, std::move(d));
  for (std::string want : {"first slice", "second"}) {
    auto r = it.Next();
    if (!r.ok()) return 2;
    std::ifstream in(*r);
    std::string got((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    if (got != want) return 1;
  }
  return it.Next().ok() ? 1 : 0;
}
'''})
protos("slice-appended")

write("opstats-middle-task", "E05", "a run with three or more tasks",
      "only the first and last task of a run are told apart, so the ones between are forgotten",
      [("fcp/client/opstats/opstats_utils.cc", '''        if (!pending_stats.empty()) {
          stats.push_back(pending_stats);
        }
''', '''        if (!pending_stats.empty() && stats.empty()) {
          stats.push_back(pending_stats);
        }
''')],
      cxx("fcp/client/opstats/opstats_utils.cc fcp/base/time_util.cc " + BASE, "fcp/client/diag_codes.proto fcp/client/histogram_counters.proto fcp/protos/opstats.proto", False, "-lre2"), {"main.cc": '''#include "fcp/client/opstats/opstats_utils.h"
using namespace fcp::client::opstats;
int main() {
  OpStatsSequence q;
  auto* o = q.add_opstats();
  o->set_population_name("p");
  o->set_min_sep_policy_index(7);
  auto add = [&](OperationalStats::PhaseStats::Phase ph, const char* t, OperationalStats::Event::EventKind k) {
    auto* p = o->add_phase_stats();
    p->set_phase(ph);
    p->set_task_name(t);
    auto* e = p->add_events();
    e->set_event_type(k);
    e->mutable_timestamp()->set_seconds(1000);
  };
  for (const char* t : {"one", "two", "three"}) {
    add(OperationalStats::PhaseStats::COMPUTATION, t, OperationalStats::Event::EVENT_KIND_COMPUTATION_STARTED);
    add(OperationalStats::PhaseStats::UPLOAD, t, OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_STARTED);
  }
  for (const char* t : {"one", "two", "three"})
    if (GetLastSuccessfulContributionMinSepPolicyIndex(q, t).value_or(-1) != 7) return 1;
  return 0;
}
'''})
protos("opstats-middle-task")

write("upload-empty-again", "F04", "an upload without content followed by another to the same place",
      "an upload that is empty does not count as done, so the place can be written a second time",
      [("fcp/demo/media.py", "self._uploads[name] is not None:", "self._uploads[name]:")],
      PYD, {"main.py": '''import sys
from fcp.demo import http_actions
from fcp.demo import media
s = media.Service(lambda: None)
n = s.register_upload()
s.upload(b'', n)
try:
  s.upload(b'other', n)
except http_actions.HttpError:
  sys.exit(0)
sys.exit(1)
'''}, kit="py")

write("served-length-stale", "F07", "a file with characters that take more than one byte",
      "the length announced for a file counts letters of its text form, not bytes",
      [("fcp/demo/media.py", "                'Content-Length': len(data),\n", "                'Content-Length': len(data.decode('utf-8', 'replace')),\n")],
      PYD, {"main.py": '''import sys
from fcp.demo import media
from fcp.protos.federatedcompute import common_pb2
s = media.Service(lambda: common_pb2.ForwardingInfo(target_uri_prefix='http://x/'))
with s.create_download_group() as g:
  data = 'gr\\u00fc\\u00df'.encode()
  p = g.add('f', data)
  r = s.download(b'', p.split('/')[-2], 'f')
  sys.exit(0 if int(r.headers['Content-Length']) == len(r.body) and r.body == data else 1)
'''}, kit="py")
