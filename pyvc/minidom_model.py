"""The part of xml.dom.minidom kajiki uses, as an executable contract.

Interpreted by pyvc in place of the standard library module; run by
pyvc/selftest.py side by side with the real xml.dom.minidom.
"""


class Node(object):
    parentNode = None
    ownerDocument = None
    nextSibling = None
    previousSibling = None

    def __init__(self):
        self.childNodes = []

    def hasChildNodes(self):
        return bool(self.childNodes)

    @property
    def firstChild(self):
        if self.childNodes:
            return self.childNodes[0]

    @property
    def lastChild(self):
        if self.childNodes:
            return self.childNodes[-1]

    def _index(self, child):
        for i in range(len(self.childNodes)):
            if self.childNodes[i] is child:
                return i
        raise ValueError('not a child')

    def appendChild(self, node):
        if node.parentNode is not None:
            node.parentNode.removeChild(node)
        if self.childNodes:
            last = self.childNodes[-1]
            node.previousSibling = last
            last.nextSibling = node
        else:
            node.previousSibling = None
        self.childNodes.append(node)
        node.parentNode = self
        return node

    def insertBefore(self, newChild, refChild):
        if newChild.parentNode is not None:
            newChild.parentNode.removeChild(newChild)
        if refChild is None:
            return self.appendChild(newChild)
        index = self._index(refChild)
        self.childNodes.insert(index, newChild)
        newChild.nextSibling = refChild
        refChild.previousSibling = newChild
        if index:
            node = self.childNodes[index - 1]
            node.nextSibling = newChild
            newChild.previousSibling = node
        else:
            newChild.previousSibling = None
        newChild.parentNode = self
        return newChild

    def replaceChild(self, newChild, oldChild):
        if newChild is oldChild:
            return
        if newChild.parentNode is not None:
            newChild.parentNode.removeChild(newChild)
        index = self._index(oldChild)
        self.childNodes[index] = newChild
        newChild.parentNode = self
        oldChild.parentNode = None
        newChild.nextSibling = oldChild.nextSibling
        newChild.previousSibling = oldChild.previousSibling
        oldChild.nextSibling = None
        oldChild.previousSibling = None
        if newChild.previousSibling:
            newChild.previousSibling.nextSibling = newChild
        if newChild.nextSibling:
            newChild.nextSibling.previousSibling = newChild
        return oldChild

    def removeChild(self, oldChild):
        index = self._index(oldChild)
        self.childNodes.pop(index)
        if oldChild.nextSibling is not None:
            oldChild.nextSibling.previousSibling = oldChild.previousSibling
        if oldChild.previousSibling is not None:
            oldChild.previousSibling.nextSibling = oldChild.nextSibling
        oldChild.nextSibling = oldChild.previousSibling = None
        oldChild.parentNode = None
        return oldChild


class Attributes(object):
    def __init__(self, d):
        self._d = d

    def items(self):
        return list(self._d.items())

    def keys(self):
        return list(self._d.keys())


class Element(Node):
    def __init__(self, tagName):
        self.tagName = self.nodeName = tagName
        self.childNodes = []
        self._attrs = {}

    @property
    def attributes(self):
        return Attributes(self._attrs)

    def hasAttributes(self):
        return bool(self._attrs)

    def hasAttribute(self, name):
        return name in self._attrs

    def getAttribute(self, name):
        if name in self._attrs:
            return self._attrs[name]
        return ''

    def setAttribute(self, name, value):
        self._attrs[name] = value

    def removeAttribute(self, name):
        del self._attrs[name]


class CharacterData(Node):
    def __init__(self):
        self.childNodes = ()
        self.data = ''


class Text(CharacterData):
    nodeName = '#text'


class CDATASection(Text):
    nodeName = '#cdata-section'


class Comment(CharacterData):
    nodeName = '#comment'

    def __init__(self, data):
        self.childNodes = ()
        self.data = data


class ProcessingInstruction(Node):
    def __init__(self, target, data):
        self.childNodes = ()
        self.target = self.nodeName = target
        self.data = data


class Document(Node):
    nodeName = '#document'
    doctype = None

    def __init__(self):
        self.childNodes = []

    def createElement(self, tagName):
        e = Element(tagName)
        e.ownerDocument = self
        return e

    def createTextNode(self, data):
        t = Text()
        t.data = data
        t.ownerDocument = self
        return t

    def createComment(self, data):
        c = Comment(data)
        c.ownerDocument = self
        return c

    def createProcessingInstruction(self, target, data):
        p = ProcessingInstruction(target, data)
        p.ownerDocument = self
        return p


class DOMImplementation(object):
    def createDocumentType(self, qualifiedName, publicId, systemId):
        return (qualifiedName, publicId, systemId)


def getDOMImplementation(features=None):
    return DOMImplementation()
