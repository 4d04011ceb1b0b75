---------------------------- MODULE DetectorsMC3 ----------------------------
EXTENDS DetectorsMC
MCP == [det |-> "HDDM_A", drift |-> "0.6", warning |-> "0.8", two |-> TRUE, wait |-> 2]
=============================================================================
