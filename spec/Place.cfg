CONSTANTS
  MaxDepth = 2
  MaxItems = 1
  Feats = {"text", "img", "fn", "cmt", "reply", "link", "anchor", "num", "bm"}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
