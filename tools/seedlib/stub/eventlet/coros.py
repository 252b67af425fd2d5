class event(object): pass
