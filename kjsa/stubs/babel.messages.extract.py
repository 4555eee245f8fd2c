__hook__('babel.import')


def extract_python(fileobj, keywords, comment_tags, options):
    return __hook__('babel.extract', fileobj, keywords, comment_tags, options)
