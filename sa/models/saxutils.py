# Model of xml.sax.saxutils (the parts which write XML), after the Python library.

def escape(data, entities={}):
    data = data.replace("&", "&amp;")
    data = data.replace(">", "&gt;")
    data = data.replace("<", "&lt;")
    for k, v in entities.items(): data = data.replace(k, v)
    return data

def quoteattr(data, entities={}):
    data = escape(data, {"\n": "&#10;", "\r": "&#13;", "\t": "&#9;"})
    return '"%s"' % data.replace('"', "&quot;")

class XMLGenerator:

    def __init__(self, out=None, encoding="iso-8859-1", short_empty_elements=False):
        self._out = out
        self._ns_contexts = [{}]
        self._current_context = self._ns_contexts[-1]
        self._undeclared_ns_maps = []
        self._encoding = encoding
        self._short_empty_elements = short_empty_elements
        self._pending_start_element = False

    def _write(self, text): self._out.write(text.encode(self._encoding))

    def setDocumentLocator(self, locator): pass
    def skippedEntity(self, name): pass

    def _qname(self, name):
        if name[0]:
            prefix = self._current_context[name[0]]
            if prefix: return prefix + ":" + name[1]
        return name[1]

    def _finish_pending_start_element(self):
        if self._pending_start_element:
            self._write('>')
            self._pending_start_element = False

    def startDocument(self): self._write('<?xml version="1.0" encoding="%s"?>\n' % self._encoding)
    def endDocument(self): pass

    def startPrefixMapping(self, prefix, uri):
        self._ns_contexts.append(self._current_context.copy())
        self._current_context[uri] = prefix
        self._undeclared_ns_maps.append((prefix, uri))

    def endPrefixMapping(self, prefix):
        self._current_context = self._ns_contexts[-1]
        del self._ns_contexts[-1]

    def _attributes(self, attrs, conv):
        for name, value in attrs.items(): self._write(' %s=%s' % (conv(name), quoteattr(value)))

    def startElement(self, name, attrs):
        self._finish_pending_start_element()
        self._write('<' + name)
        self._attributes(attrs, lambda n: n)
        if self._short_empty_elements: self._pending_start_element = True
        else: self._write(">")

    def endElement(self, name):
        if self._pending_start_element:
            self._write('/>')
            self._pending_start_element = False
        else: self._write('</%s>' % name)

    def startElementNS(self, name, qname, attrs):
        self._finish_pending_start_element()
        self._write('<' + self._qname(name))
        for prefix, uri in self._undeclared_ns_maps:
            if prefix: self._write(' xmlns:%s="%s"' % (prefix, uri))
            else: self._write(' xmlns="%s"' % uri)
        self._undeclared_ns_maps = []
        self._attributes(attrs, self._qname)
        if self._short_empty_elements: self._pending_start_element = True
        else: self._write(">")

    def endElementNS(self, name, qname): self.endElement(self._qname(name))

    def characters(self, content):
        if content:
            self._finish_pending_start_element()
            self._write(escape(content))

    def ignorableWhitespace(self, content):
        if content:
            self._finish_pending_start_element()
            self._write(content)

    def processingInstruction(self, target, data):
        self._finish_pending_start_element()
        self._write('<?%s %s?>' % (target, data))
