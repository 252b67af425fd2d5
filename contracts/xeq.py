# an event queue client whose capability, handler and scheduler are stand-ins
from vc import unit
from xnet import B
EQ = B + 'event_queue'
Q_ = EQ + '.EventQueueClient.'

class Queue(object):
    """posts: list of functions(W, data) called one after another, each gives a response (or throws); the queue is stopped during the last"""
    def __init__(self, W, posts, host=None, known=None, last=None, stop_in='post'):
        self.W = W
        self.posted = W.log(); self.handled = W.log()
        self.turn = 0; self.done = 0
        n = len(posts)
        def stop(): W.do(self.q, 'stop')
        def sleep(*a):
            self.turn += 1
            if self.turn == n and stop_in == 'sleep': stop()
        def post(data, **k):
            W.note(self.posted, data)
            if self.done >= n: self.done += 1; return None
            self.done += 1
            if self.done == n and stop_in == 'post': stop()
            return posts[self.done - 1](data)
        W.patch(EQ, 'api', W.stub(sleep=W.fn(sleep), spawn=W.fn(lambda f, *a, **k: None)))
        W.patch(EQ, 'TemplateDictionary', W.fn(lambda *a, **k: W.stub(get_template=W.fn(known if known else lambda name: None))))
        def handle(m): W.note(self.handled, m)
        settings = W.call(W.imp(B + 'settings', 'Settings'), W.bool('quiet'))
        self.host = W.opaque('host') if host is None else host
        self.cap = W.stub(name=b'EventQueueGet', POST=W.fn(post))
        self.q = W.call(W.imp(EQ, 'EventQueueClient'), self.cap, settings, W.stub(handle=W.fn(handle)), self.host)
        if last is not None: W.set(self.q, 'last_id', last)
        if n == 0: stop()
    def run(self):
        W = self.W
        r = W.tryto(self.q, 'start')
        W.check('the loop ends without an error', r.ok, r)
        return r
