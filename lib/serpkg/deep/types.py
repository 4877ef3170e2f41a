"""Node types named like others."""
from node.base import AttributedNode
from node.base import OrderedNode


class Derived(AttributedNode):
    pass


class OwnNode(OrderedNode):
    pass


class BaseNode(OrderedNode):
    pass
