def abspath_from_resource_spec(spec, pname='__main__'):
    if ':' in spec:
        pname, spec = spec.split(':', 1)
        return '/' + pname + '/' + spec
    return spec
