def sleep(*a): pass
def spawn(*a,**k): pass
