class IRenderer(object):
    pass


class ITemplateRenderer(object):
    pass
