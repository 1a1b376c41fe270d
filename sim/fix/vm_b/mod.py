"""Another caller of throw_error whose every place of rejection is known in advance."""
from ellipy.gen.common.common import throw_error, get_caller_name, get_caller_name_ext


def plain(tag, msg):
    throw_error(tag, msg)


def deep(tag, msg, n):
    if n > 0:
        return deep(tag, msg, n - 1)
    throw_error(tag, msg)


def returned(tag, msg):
    raise throw_error(tag, msg, throw=False)


def helper(tag, msg):
    throw_error(tag, msg, 2)


def through(tag, msg):
    helper(tag, msg)


def nested(tag, msg):
    def inner():
        throw_error(tag, msg)
    inner()


def anonymous(tag, msg):
    (lambda: throw_error(tag, msg))()


def names(tag, msg):
    raise ValueError('|'.join(list(get_caller_name_ext()) + [get_caller_name(), get_caller_name(1, 'full'), tag, msg]))


def name_of_caller(tag, msg):
    names(tag, msg)


class Base(object):
    def method(self, tag, msg):
        throw_error(tag, msg)

    @classmethod
    def clsm(cls, tag, msg):
        throw_error(tag, msg)

    @staticmethod
    def stat(tag, msg):
        throw_error(tag, msg)

    @property
    def prop(self):
        throw_error('wrongInput', 'property')

    def calls_plain(self, tag, msg):
        plain(tag, msg)

    def in_except(self, tag, msg):
        try:
            plain('other', 'first')
        except ValueError:
            throw_error(tag, msg)


class Derived(Base):
    pass


class Other(Base):
    def method(self, tag, msg):
        Base.method(self, tag, msg)


def run(what, tag, msg):
    """(function to call, text expected)"""
    m = __name__.replace('.', ':').upper()
    t = ':' + tag + ':' + msg
    if what.startswith('deep'):
        return (lambda: deep(tag, msg, int(what[4:]))), m + ':DEEP' + t
    if what == 'name_of_caller':
        return (lambda: name_of_caller(tag, msg)), '|'.join(
            ['names', __name__, __name__, __name__ + '.names', tag, msg])
    if what in ('plain', 'returned', 'through'):
        return (lambda: globals()[what](tag, msg)), m + ':' + what.upper() + t
    if what == 'nested':
        return (lambda: nested(tag, msg)), m + ':INNER' + t
    if what == 'anonymous':
        return (lambda: anonymous(tag, msg)), m + ':<LAMBDA>' + t
    cls, f = what.split('.')
    o = globals()[cls]()
    if f in ('clsm', 'stat'):
        return (lambda: getattr(o, f)(tag, msg)), m + ':' + f.upper() + t
    if f == 'prop':
        return (lambda: o.prop), m + ':' + cls.upper() + ':PROP:wrongInput:property'
    if f == 'calls_plain':
        return (lambda: o.calls_plain(tag, msg)), m + ':PLAIN' + t
    return (lambda: getattr(o, f)(tag, msg)), m + ':' + cls.upper() + ':' + f.upper() + t


WHAT = ['plain', 'returned', 'through', 'nested', 'anonymous', 'deep0', 'deep3', 'deep40', 'name_of_caller'] + [
    c + '.' + f for c in ('Base', 'Derived', 'Other') for f in ('method', 'clsm', 'stat', 'prop', 'calls_plain',
                                                                 'in_except')]
