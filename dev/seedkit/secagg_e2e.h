// Drives a whole secure aggregation session in memory: one server and several
// clients, messages delivered in order.  Scenarios decide who drops out when.
#pragma once
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "fcp/base/scheduler.h"
#include "fcp/secagg/client/secagg_client.h"
#include "fcp/secagg/client/send_to_server_interface.h"
#include "fcp/secagg/client/state_transition_listener_interface.h"
#include "fcp/secagg/server/experiments_interface.h"
#include "fcp/secagg/server/experiments_names.h"
#include "fcp/secagg/server/secagg_scheduler.h"
#include "fcp/secagg/server/secagg_server.h"
#include "fcp/secagg/server/send_to_clients_interface.h"
#include "fcp/secagg/shared/aes_ctr_prng_factory.h"
#include "fcp/secagg/shared/crypto_rand_prng.h"
#include "fcp/secagg/shared/secagg_vector.h"

namespace e2e {
using namespace fcp;
using namespace fcp::secagg;

struct Experiments : ExperimentsInterface {
  std::set<std::string> on;
  bool IsEnabled(absl::string_view n) override {
    return on.count(std::string(n)) > 0;
  }
};

struct Runner : SecAggScheduler {
  Runner(std::unique_ptr<Scheduler> a, std::unique_ptr<Scheduler> b)
      : SecAggScheduler(a.get(), b.get()), a_(std::move(a)), b_(std::move(b)) {}
  ~Runner() override { WaitUntilIdle(); }
  std::unique_ptr<Scheduler> a_, b_;
};

struct Listener : StateTransitionListenerInterface {
  void Transition(ClientState) override {}
  void Started(ClientState) override {}
  void Stopped(ClientState) override {}
  void set_execution_session_id(int64_t) override {}
};

struct ToServer : SendToServerInterface {
  std::function<void(const ClientToServerWrapperMessage&)> f;
  void Send(ClientToServerWrapperMessage* m) override { f(*m); }
};

struct Session : SendToClientsInterface {
  int n, min;
  uint64_t modulus = 1 << 20;
  std::vector<InputVectorSpecification> specs;
  std::vector<std::unique_ptr<SecAggClient>> clients;
  std::unique_ptr<SecAggServer> server;
  // messages not yet delivered
  std::deque<std::pair<int, ClientToServerWrapperMessage>> up;
  std::deque<std::pair<int, ServerToClientWrapperMessage>> down;
  std::vector<std::pair<int, ServerToClientWrapperMessage>> sent_down;
  std::vector<std::pair<int, ClientToServerWrapperMessage>> sent_up;
  // rewrites or drops (returns false) a message on its way
  std::function<bool(int, ClientToServerWrapperMessage&)> on_up;
  std::function<bool(int, ServerToClientWrapperMessage&)> on_down;

  Session(int n_, int min_, std::set<std::string> on = {}) : n(n_), min(min_) {
    specs.emplace_back("v", 4, modulus);
    auto ex = std::make_unique<Experiments>();
    ex->on = on;
    ex->on.insert(kFullgraphSecAggExperiment);
    SecureAggregationRequirements req;
    req.set_adversary_class(AdversaryClass::CURIOUS_SERVER);
    req.set_estimated_dropout_rate(1.0 - double(min) / n);
    req.set_minimum_clients_in_server_visible_aggregate(2);
    auto s = SecAggServer::Create(
        min, n, specs, this, nullptr,
        std::make_unique<Runner>(CreateThreadPoolScheduler(2),
                                 CreateThreadPoolScheduler(1)),
        std::move(ex), req);
    if (!s.ok()) {
      std::cerr << s.status() << "\n";
      exit(3);
    }
    server = std::move(*s);
    for (int i = 0; i < n; ++i) {
      auto snd = std::make_unique<ToServer>();
      snd->f = [this, i](const ClientToServerWrapperMessage& m) {
        sent_up.emplace_back(i, m);
        up.emplace_back(i, m);
      };
      clients.push_back(std::make_unique<SecAggClient>(
          n, min, specs, std::make_unique<CryptoRandPrng>(), std::move(snd),
          std::make_unique<Listener>(),
          std::make_unique<AesCtrPrngFactory>()));
    }
  }
  void Send(uint32_t id, const ServerToClientWrapperMessage& m) override {
    sent_down.emplace_back(id, m);
    down.emplace_back(id, m);
  }
  std::vector<uint64_t> Input(int i) const {
    std::vector<uint64_t> v;
    for (int k = 0; k < 4; ++k) v.push_back((i + 1) * 1000 + k);
    return v;
  }
  void StartAll() {
    for (int i = 0; i < n; ++i) {
      auto m = std::make_unique<SecAggVectorMap>();
      auto v = Input(i);
      m->emplace("v", SecAggVector(v, modulus));
      clients[i]->SetInput(std::move(m)).IgnoreError();
      clients[i]->Start().IgnoreError();
    }
  }
  // delivers every pending client message
  void DeliverUp() {
    while (!up.empty()) {
      auto [i, m] = up.front();
      up.pop_front();
      if (on_up && !on_up(i, m)) continue;
      server
          ->ReceiveMessage(i, std::make_unique<ClientToServerWrapperMessage>(m))
          .status()
          .IgnoreError();
    }
  }
  void DeliverDown() {
    while (!down.empty()) {
      auto [i, m] = down.front();
      down.pop_front();
      if (on_down && !on_down(i, m)) continue;
      clients[i]->ReceiveMessage(m).status().IgnoreError();
    }
  }
  // runs until nothing moves any more
  void Run() {
    StartAll();
    for (int r = 0; r < 12; ++r) {
      DeliverUp();
      auto s = server->ReadyForNextRound();
      for (int k = 0; k < 200 && s.ok() && !*s; ++k) {
        absl::SleepFor(absl::Milliseconds(5));
        s = server->ReadyForNextRound();
      }
      if (!s.ok() || !*s) break;
      server->ProceedToNextRound().IgnoreError();
      DeliverDown();
    }
  }
  std::vector<uint64_t> Sum(const std::set<int>& who) const {
    std::vector<uint64_t> t(4, 0);
    for (int i : who)
      for (int k = 0; k < 4; ++k) t[k] = (t[k] + Input(i)[k]) % modulus;
    return t;
  }
  // 0 if the released result is exactly the sum over `who`
  int Expect(const std::set<int>& who) {
    auto r = server->Result();
    if (!r.ok()) {
      std::cerr << "no result: " << r.status() << "\n";
      return 1;
    }
    auto got = (*r)->at("v").GetAsUint64Vector();
    auto want = Sum(who);
    for (int k = 0; k < 4; ++k)
      if (got[k] != want[k]) {
        std::cerr << "result[" << k << "]=" << got[k] << ", expected "
                  << want[k] << "\n";
        return 1;
      }
    return 0;
  }
};
}  // namespace e2e
