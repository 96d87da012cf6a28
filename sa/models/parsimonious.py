"""The documented behaviour of the third-party package `parsimonious`, as source for the analyser.

`peg_parse` is the recognition algorithm (sa/peg.py) applied to the grammar text found in the
analysed package; a node is (rule name, text, children)."""
from verif_intrinsics import peg_match, peg_parse


class ParsimoniousError(Exception):
    pass


class ParseError(ParsimoniousError):
    pass


class IncompleteParseError(ParseError):
    pass


class VisitationError(ParsimoniousError):
    pass


class Node:
    def __init__(self, expr_name, text, children, start, end, full_text):
        self.expr_name = expr_name
        self.text = text
        self.children = children
        self.start = start
        self.end = end
        self.full_text = full_text

    def __iter__(self):
        return iter(self.children)


class RegexNode(Node):
    pass


class Rule:
    def __init__(self, rules, name):
        self.rules = rules
        self.name = name

    def parse(self, text, pos=0):
        return peg_parse(self.rules, self.name, text, pos)

    def match(self, text, pos=0):
        return peg_match(self.rules, self.name, text, pos)


class Grammar:
    def __init__(self, rules=""):
        self.rules = rules

    def parse(self, text, pos=0):
        return peg_parse(self.rules, None, text, pos)

    def match(self, text, pos=0):
        return peg_match(self.rules, None, text, pos)

    def __getitem__(self, name):
        return Rule(self.rules, name)

    def get(self, name):
        return Rule(self.rules, name)


class NodeVisitor:
    grammar = None
    unwrapped_exceptions = ()

    def visit(self, node):
        method = getattr(self, "visit_" + node.expr_name, self.generic_visit)
        try:
            return method(node, [self.visit(n) for n in node])
        except VisitationError:
            raise
        except Exception as exc:
            if isinstance(exc, self.unwrapped_exceptions):
                raise
            raise VisitationError(exc) from exc

    def generic_visit(self, node, visited_children):
        raise NotImplementedError("No visitor method was defined for this expression")

    def parse(self, text, pos=0):
        return self.visit(self.grammar.parse(text, pos))

    def match(self, text, pos=0):
        return self.visit(self.grammar.match(text, pos))

    def lift_child(self, node, children):
        (first_child,) = children
        return first_child
