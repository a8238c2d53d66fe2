SPECIFICATION Spec
CONSTANTS
  Urls = {"http://tenhou.net/0/?log=g1", "http://tenhou.net/0/?log=g2", "http://tenhou.net/3/?log=g1"}
  Statuses = {200, 404}
  Bodies = {"x", "y"}
  MaxLinks = 3
INVARIANTS OnlySuccesses NothingLost OncePerLink
PROPERTY Ends
CHECK_DEADLOCK FALSE
