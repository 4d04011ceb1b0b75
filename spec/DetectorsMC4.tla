---------------------------- MODULE DetectorsMC4 ----------------------------
EXTENDS DetectorsMC
MCP == [det |-> "HDDM_W", drift |-> "0.3", warning |-> "0.5", lambda |-> "0.2", two |-> TRUE, decr |-> FALSE, wait |-> 2]
=============================================================================
