v = 0
