context = object()
