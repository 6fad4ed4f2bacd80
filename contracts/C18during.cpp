// Signal: every pair of disconnections made by the slots during an emission.
// @configs cxx17
#include "signal.hpp"

VC_PROOF(DisconnectDuring_First) { disconnectDuring<4>(0, 1); }
VC_PROOF(DisconnectDuring_Second) { disconnectDuring<4>(1, 1); }
VC_PROOF(DisconnectDuring_Third) { disconnectDuring<4>(2, 1); }
VC_PROOF(DisconnectDuring_Fourth) { disconnectDuring<4>(3, 1); }

VC_MAIN
