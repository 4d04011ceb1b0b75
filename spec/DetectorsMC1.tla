---------------------------- MODULE DetectorsMC1 ----------------------------
EXTENDS DetectorsMC
MCP == [det |-> "DDM", min |-> 4, warn |-> "0.5", out |-> "1.0", wait |-> 3]
=============================================================================
