---------------------------- MODULE DetectorsMC2 ----------------------------
EXTENDS DetectorsMC
MCP == [det |-> "PH", min |-> 3, delta |-> "0.005", threshold |-> "0.8", alpha |-> "0.9999", wait |-> 2]
=============================================================================
