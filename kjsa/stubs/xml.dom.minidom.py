"""Model of the parts of xml.dom.minidom kajiki uses (same link discipline)."""
from xml.dom import NotFoundErr, HierarchyRequestErr


class Node(object):
    ELEMENT_NODE = 1
    ATTRIBUTE_NODE = 2
    TEXT_NODE = 3
    CDATA_SECTION_NODE = 4
    PROCESSING_INSTRUCTION_NODE = 7
    COMMENT_NODE = 8
    DOCUMENT_NODE = 9
    parentNode = None
    ownerDocument = None
    nextSibling = None
    previousSibling = None
    nodeType = None

    def __bool__(self):
        return True

    @property
    def firstChild(self):
        if self.childNodes:
            return self.childNodes[0]
        return None

    @property
    def lastChild(self):
        if self.childNodes:
            return self.childNodes[-1]
        return None

    def hasChildNodes(self):
        return bool(self.childNodes)

    def appendChild(self, node):
        if node.parentNode is not None:
            node.parentNode.removeChild(node)
        last = None
        if self.childNodes:
            last = self.childNodes[-1]
        if last is not None:
            node.previousSibling = last
            last.nextSibling = node
        else:
            node.previousSibling = None
        self.childNodes.append(node)
        node.nextSibling = None
        node.parentNode = self
        return node

    def insertBefore(self, newChild, refChild):
        if newChild.parentNode is not None:
            newChild.parentNode.removeChild(newChild)
        if refChild is None:
            return self.appendChild(newChild)
        if refChild not in self.childNodes:
            raise NotFoundErr()
        index = self.childNodes.index(refChild)
        self.childNodes.insert(index, newChild)
        newChild.nextSibling = refChild
        refChild.previousSibling = newChild
        if index:
            node = self.childNodes[index - 1]
            node.nextSibling = newChild
            newChild.previousSibling = node
        else:
            newChild.previousSibling = None
        newChild.parentNode = self
        return newChild

    def replaceChild(self, newChild, oldChild):
        if newChild is oldChild:
            return
        if newChild.parentNode is not None:
            newChild.parentNode.removeChild(newChild)
        if oldChild not in self.childNodes:
            raise NotFoundErr()
        index = self.childNodes.index(oldChild)
        self.childNodes[index] = newChild
        newChild.parentNode = self
        oldChild.parentNode = None
        newChild.nextSibling = oldChild.nextSibling
        newChild.previousSibling = oldChild.previousSibling
        oldChild.nextSibling = None
        oldChild.previousSibling = None
        if newChild.previousSibling is not None:
            newChild.previousSibling.nextSibling = newChild
        if newChild.nextSibling is not None:
            newChild.nextSibling.previousSibling = newChild
        return oldChild

    def removeChild(self, oldChild):
        if oldChild not in self.childNodes:
            raise NotFoundErr()
        self.childNodes.remove(oldChild)
        if oldChild.nextSibling is not None:
            oldChild.nextSibling.previousSibling = oldChild.previousSibling
        if oldChild.previousSibling is not None:
            oldChild.previousSibling.nextSibling = oldChild.nextSibling
        oldChild.nextSibling = None
        oldChild.previousSibling = None
        oldChild.parentNode = None
        return oldChild


class NamedNodeMap(object):
    def __init__(self, d):
        self._d = d

    def items(self):
        return [(k, v) for k, v in self._d.items()]

    def keys(self):
        return [k for k, v in self._d.items()]

    def values(self):
        return [v for k, v in self._d.items()]

    @property
    def length(self):
        return len(self._d)

    def __len__(self):
        return len(self._d)

    def __contains__(self, k):
        return k in self._d


class Element(Node):
    nodeType = 1

    def __init__(self, tagName):
        self.childNodes = []
        self.tagName = self.nodeName = tagName
        self._attrs = {}

    @property
    def attributes(self):
        return NamedNodeMap(self._attrs)

    def hasAttributes(self):
        return bool(self._attrs)

    def hasAttribute(self, name):
        return name in self._attrs

    def getAttribute(self, name):
        if name in self._attrs:
            return self._attrs[name]
        return ''

    def setAttribute(self, name, value):
        self._attrs[name] = value

    def removeAttribute(self, name):
        if name not in self._attrs:
            raise NotFoundErr()
        del self._attrs[name]


class CharacterData(Node):
    def __init__(self, data):
        self.childNodes = ()
        self.data = data

    @property
    def nodeValue(self):
        return self.data

    @property
    def firstChild(self):
        return None

    @property
    def length(self):
        return len(self.data)


class Text(CharacterData):
    nodeType = 3
    nodeName = '#text'

    @property
    def wholeText(self):
        return self.data


class CDATASection(Text):
    nodeType = 4
    nodeName = '#cdata-section'


class Comment(CharacterData):
    nodeType = 8
    nodeName = '#comment'


class ProcessingInstruction(Node):
    nodeType = 7

    def __init__(self, target, data):
        self.childNodes = ()
        self.target = self.nodeName = target
        self.data = data

    @property
    def firstChild(self):
        return None


class DocumentType(object):
    def __init__(self, name, publicId, systemId):
        self.name = name
        self.publicId = publicId
        self.systemId = systemId


class Document(Node):
    nodeType = 9
    nodeName = '#document'
    doctype = None

    def __init__(self):
        self.childNodes = []

    @property
    def documentElement(self):
        for n in self.childNodes:
            if n.nodeType == 1:
                return n
        return None

    def appendChild(self, node):
        if node.nodeType not in (1, 7, 8):
            raise HierarchyRequestErr('%s cannot be child of document' % node.nodeName)
        return Node.appendChild(self, node)

    def createElement(self, tagName):
        e = Element(tagName)
        e.ownerDocument = self
        return e

    def createTextNode(self, data):
        t = Text(data)
        t.ownerDocument = self
        return t

    def createCDATASection(self, data):
        t = CDATASection(data)
        t.ownerDocument = self
        return t

    def createComment(self, data):
        c = Comment(data)
        c.ownerDocument = self
        return c

    def createProcessingInstruction(self, target, data):
        p = ProcessingInstruction(target, data)
        p.ownerDocument = self
        return p


class DOMImplementation(object):
    def createDocumentType(self, name, publicId, systemId):
        return DocumentType(name, publicId, systemId)


def getDOMImplementation(features=None):
    return DOMImplementation()
