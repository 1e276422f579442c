TITLE = "Coroutines, channels and timers deliver every message once in order"
STATEMENT = ("In a compiled program every message sent on a channel is received exactly once and in the order sent, a coroutine that waits on a channel, timer or file descriptor resumes once its event has happened "
             "and not before its deadline unless it has, and no runnable coroutine is left waiting forever.")
OVER = ["schedules", "inputs"]
QTEXT = "all interleavings of coroutines and events"
WHY = "Tests run one schedule."
FILES = ["src/cxy/stdlib/coro.cxy", "src/cxy/stdlib/native"]
MECH = [("coroutine switch, channels, scheduler", "src/cxy/stdlib")]
NOT_APPLICABLE = ("the behaviour lives in context switching by assembly and signal stacks and in poll/epoll calls of third-party C; CBMC executes neither, so a contract here would be an assumed contract on exactly what has to be shown")
