def escape(data, entities={}):
    data = data.replace("&", "&amp;")
    data = data.replace(">", "&gt;")
    data = data.replace("<", "&lt;")
    for k, v in entities.items():
        data = data.replace(k, v)
    return data


def unescape(data, entities={}):
    data = data.replace("&lt;", "<")
    data = data.replace("&gt;", ">")
    for k, v in entities.items():
        data = data.replace(k, v)
    return data.replace("&amp;", "&")


def quoteattr(data, entities={}):
    return '"' + escape(data, {'"': '&quot;'}) + '"'
