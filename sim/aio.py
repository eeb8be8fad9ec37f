"""The real asyncio event loop on the simulated clock and network."""
import asyncio
import errno
import logging
import selectors

from sim import engine

logging.getLogger('asyncio').setLevel(logging.CRITICAL + 1)


class Selector(selectors._BaseSelectorImpl):
    """Waits for simulated sockets."""

    def __init__(self, net):
        super(Selector, self).__init__()
        self.net = net

    def register(self, fileobj, events, data=None):
        key = super(Selector, self).register(fileobj, events, data)
        if key.fd not in self.net.fds:
            self.unregister(fileobj)
            raise OSError(errno.EBADF, 'Bad file descriptor')
        return key

    def select(self, timeout=None):
        sim, net = engine.SIM, self.net
        keys = list(self.get_map().values())

        def events(key):
            sock = net.fds.get(key.fd)
            if sock is None:
                return 0
            mask = 0
            if key.events & selectors.EVENT_READ and net.readable(sock):
                mask |= selectors.EVENT_READ
            if key.events & selectors.EVENT_WRITE and (net.writable(sock) or sock.state == 'failed'):
                mask |= selectors.EVENT_WRITE
            return mask
        ready = lambda: any(events(k) for k in keys)
        if timeout is not None and timeout <= 0:
            sim.yield_()
        else:
            # epoll waits for whole milliseconds, rounded up
            deadline = None if timeout is None else sim.now + max(1, engine.ticks(timeout))
            sim.block(ready, deadline)
        out = [(k, events(k)) for k in keys]
        return net.s.shuffle([(k, m) for k, m in out if m])


def new_loop(net):
    loop = asyncio.SelectorEventLoop(Selector(net))
    asyncio.set_event_loop(loop)
    return loop
