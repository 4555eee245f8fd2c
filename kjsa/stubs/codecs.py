import io


def open(filename, mode='r', encoding=None, errors='strict', buffering=-1):
    return io.open(filename, mode, buffering, encoding)
