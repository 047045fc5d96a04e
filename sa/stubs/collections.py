class UserList:
    def __init__(self, initlist=None):
        self.data = []
        if initlist is not None:
            self.data = list(initlist)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, i):
        return self.data[i]

    def __setitem__(self, i, item):
        self.data[i] = item

    def __iter__(self):
        return iter(self.data)

    def __contains__(self, item):
        return item in self.data

    def append(self, item):
        self.data.append(item)

    def insert(self, i, item):
        self.data.insert(i, item)

    def extend(self, other):
        self.data.extend(other)

    def sort(self, **kw):
        self.data.sort(**kw)

    def reverse(self):
        self.data.reverse()

    def clear(self):
        self.data.clear()

    def pop(self, i=-1):
        return self.data.pop(i)

    def copy(self):
        return self

    def index(self, item):
        return self.data.index(item)
