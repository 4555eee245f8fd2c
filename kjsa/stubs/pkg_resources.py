def resource_listdir(package, name):
    return __hook__('pkg.listdir', package, name)


def resource_filename(package, name):
    return __hook__('pkg.filename', package, name)


def resource_exists(package, name):
    return __hook__('pkg.exists', package, name)
