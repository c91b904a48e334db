PROPS = []
