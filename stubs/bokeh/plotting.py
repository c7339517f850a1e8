"""The part of the plotting interface that the library uses; `record` holds what was sent to be drawn."""
record = []


class DataSource(object):
    def __init__(self):
        self.data = {}


class Renderer(object):
    def __init__(self, name, x, y, kw):
        self.name, self.kw = name, kw
        self.data_source = DataSource()
        self.data_source.data.update(x=list(x), y=list(y))


class Figure(object):
    def __init__(self, **kw):
        self.kw, self.renderers = kw, []

    def line(self, x, y, name=None, **kw):
        self.renderers.append(Renderer(name, x, y, kw))
        return self.renderers[-1]

    def select(self, query=None, **kw):
        query = dict(query or {}, **kw)
        return [r for r in self.renderers if r.name == query.get('name', r.name)]


class Session(object):
    def store_objects(self, *objects):
        for o in objects:
            record.append(('store', o, {k: list(v) for k, v in o.data.items()}))


def output_server(name, *a, **kw):
    record.append(('server', name))


def output_file(name, *a, **kw):
    record.append(('file', name))


def figure(**kw):
    return Figure(**kw)


def show(fig):
    record.append(('show', fig))


def cursession():
    return Session()


def save(fig, filename=None, *a, **kw):
    record.append(('save', fig, filename, {r.name: {k: list(v) for k, v in r.data_source.data.items()} for r in fig.renderers}))
