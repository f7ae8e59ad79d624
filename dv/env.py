"""The verification environment: contracts, library models, representation invariants."""
from .contracts import Contracts, Views, Spec
from .lib import Lib
from .terms import *
from .specs import common
from .specs import data
from .specs import message
from .specs import base64
from .specs import client
from .specs import conn
from .specs import proto
from .specs import session
from .specs import special
from .specs import mail
from .specs import start, cpp
from . import net

TABLE = {}
TABLE.update(message.VIEW)
TABLE.update(client.VIEW)
TABLE.update(data.VIEW)
GHOSTS = [conn.ghosts]


class Env:
    def __init__(self):
        self.contracts = Contracts()
        for s in common.SPECS:
            self.contracts.add(s)
        for n, f in proto.VIRT.items():
            self.contracts.virt[n] = Spec("virtual " + n, f, ())
        for n, f in proto.GROUP.items():
            self.contracts.groups[n] = Spec("member pointer (%s)" % n, f, ())
        self.regexes = {}
        self.views = Views(TABLE)

    def lib(self):
        l = Lib()
        l.net = net.NET
        return l

    def init_ghosts(self, I_, c):
        for f in GHOSTS:
            f(I_, c)
