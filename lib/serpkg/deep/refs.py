"""Referenced from attribute values only."""


class Referenced(object):

    def method(self):
        pass

    class Inner(object):

        class Inmost(object):

            def method(self):
                pass

            class Core(object):
                class Kernel(object):
                    class Last(object):
                        def method(self):
                            pass


class Falsy(type):
    pass


def function(x=1):
    return x


def another():
    pass
