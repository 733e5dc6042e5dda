SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  RxOk <- TRxOk
  RxMatch <- TRxMatch
  Follow <- TFollow
  ParOf <- TParOf
  NmOf <- TNmOf
  HexOf <- THexOf
  HugeOf <- THugeOf
  RepoParOf <- TRepoParOf
  SplitStored <- TSplit
