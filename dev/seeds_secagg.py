"""Planted bugs in secure aggregation."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import write
C = "fcp/secagg/client/"
S = "fcp/secagg/server/"
DEMO = '. "$(dirname "$0")/cxx.sh"\ncxx_build "$WORK/t" main.cc $SECAGG\ntimeout 100 "$WORK/t"\n'


def main(body):
    return {"main.cc": '#include "secagg_e2e.h"\nusing namespace e2e;\nint main() {\n' + body + '\n  std::cout << "ok\\n";\n  return 0;\n}\n'}


write("secagg-pair-sign", "S06", "a client that drops out after sharing keys and before sending input, with contributors on both sides of it",
      "the server decides the sign of the lost client's pairwise mask from the lost client's side, so the masks no longer cancel",
      [(S + "secagg_server_protocol_impl.cc", "if (IsOutgoingNeighbor(i, item.first)) {", "if (IsOutgoingNeighbor(item.first, i)) {")],
      DEMO, main('''  Session s(5, 3);
  s.on_up = [](int i, ClientToServerWrapperMessage& m) {
    return !(i == 2 && m.has_masked_input_response());
  };
  s.Run();
  if (s.Expect({0, 1, 3, 4})) return 1;'''))

write("secagg-ready-not-withdrawn", "S08", "a client that is dropped after its masked input was counted, with only just enough others",
      "a client dropped after sending its input stays in the count of clients that are ready, so the round closes with one client too few",
      [(S + "secagg_server_r2_masked_input_coll_state.cc", "    number_of_clients_ready_for_next_round_--;\n    number_of_clients_failed_after", "    number_of_clients_failed_after")],
      DEMO, main('''  Session s(4, 3);
  s.StartAll();
  for (int r = 0; r < 2; ++r) {
    s.DeliverUp();
    s.server->ProceedToNextRound().IgnoreError();
    s.DeliverDown();
  }
  // inputs of clients 0, 1 arrive; 0 disconnects
  auto pending = s.up;
  s.up.clear();
  for (auto& p : pending)
    if (p.first < 2) s.up.push_back(p);
  s.DeliverUp();
  s.server->AbortClient(0, ClientAbortReason::CONNECTION_DROPPED).IgnoreError();
  auto n = s.server->NumberOfClientsReadyForNextRound();
  if (!n.ok() || *n != 1) {
    std::cerr << "ready clients: " << (n.ok() ? *n : -1) << ", expected 1\\n";
    return 1;
  }'''))

write("secagg-second-dead-report", "S02", "an unmasking request naming the same neighbour twice",
      "a neighbour reported as dropped for the second time is accepted silently and discounted again",
      [(C + "secagg_client_r3_unmasking_state.cc", '''      case OtherClientState::kDeadAtRound3:
        return AbortAndNotifyServer(
            "The received UnmaskingRequest repeated a client more than once "
            "as a dead client.");
        break;
''', '''      case OtherClientState::kDeadAtRound3:
        break;
''')], DEMO, main('''  Session s(5, 3);
  s.on_up = [](int i, ClientToServerWrapperMessage& m) {
    return !(i == 2 && m.has_masked_input_response());
  };
  s.on_down = [](int i, ServerToClientWrapperMessage& m) {
    if (m.has_unmasking_request() && i == 0)
      m.mutable_unmasking_request()->add_dead_3_client_ids(
          m.unmasking_request().dead_3_client_ids(0));
    return true;
  };
  s.Run();
  for (auto& p : s.sent_up)
    if (p.first == 0 && p.second.has_unmasking_response()) {
      std::cerr << "client 0 answered a request naming a client twice\\n";
      return 1;
    }
  if (!s.clients[0]->IsAborted()) return 2;'''))

write("secagg-short-vector", "S10", "a masked input vector longer than the specification",
      "a masked input with trailing bytes is accepted although its size does not match the specification",
      [(S + "aes/aes_secagg_server_protocol_impl.cc", "    if (masked_vector->second.encoded_vector().size() !=\n", "    if (masked_vector->second.encoded_vector().size() <\n")],
      DEMO, main('''  Session s(4, 3);
  s.on_up = [](int i, ClientToServerWrapperMessage& m) {
    if (i == 1 && m.has_masked_input_response())
      for (auto& v : *m.mutable_masked_input_response()->mutable_vectors())
        v.second.mutable_encoded_vector()->append("x");
    return true;
  };
  s.Run();
  for (auto& p : s.sent_down)
    if (p.first == 1 && p.second.has_abort()) {
      std::cout << "rejected\\n";
      return 0;
    }
  std::cerr << "oversized vector was accepted\\n";
  return 1;'''))
