TITLE = "Network and file services of the standard library"
STATEMENT = ("The standard library's sockets, HTTP server and file access deliver the bytes written in order, parse every well formed request to its parts and answer a malformed one with an error instead of a wrong result.")
OVER = ["inputs", "schedules"]
QTEXT = "all byte streams and their splittings"
WHY = "There are no tests of these modules in the stable set."
FILES = ["src/cxy/stdlib"]
MECH = [("http, net, fs modules", "src/cxy/stdlib")]
NOT_APPLICABLE = ("built on the coroutine runtime (see C26) and system calls: every operation switches stacks inside; a stub for that runtime would assume the ordering that the property states")
