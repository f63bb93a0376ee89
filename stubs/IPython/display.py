"""Recording stand-in: what a notebook would have been shown."""
SHOWN = []
class HTML:
  def __init__(self, data=None, **kw): self.data = data
class SVG(HTML): pass
class Javascript(HTML): pass
def display(*objs, **kw):
  SHOWN.extend(objs)
