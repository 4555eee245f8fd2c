def heapify(h):
    h.sort()


def heappush(h, x):
    h.append(x)
    h.sort()


def heappop(h):
    return h.pop(0)
