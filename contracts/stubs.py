"""Library objects that the verified code creates; their behaviour is an assumption."""


class ThreadStub:
    """threading.Thread: started once, then running until its target returns"""

    def start(self):
        thread_start(self)

    def is_alive(self):
        return self.running
