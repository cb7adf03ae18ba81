CONSTANTS Family_ = "dec"
  Depth = 4
SPECIFICATION Spec
INVARIANTS Sequenced WithinLimits NotTooEarly Gate InOrder Deferred Secret Authentic LeaderNotices Complete OnceCommitted NothingPending Emit
CHECK_DEADLOCK FALSE
