"""Recording stand-in: the figures that would have been drawn."""
FIGURES = []


class Axes:
  def __init__(self):
    self.calls = []

  def __getattr__(self, name):
    if name.startswith("__"):
      raise AttributeError(name)

    def call(*a, **k):
      self.calls.append((name, a, k))
    return call


class Figure(Axes):
  pass


def subplots(nrows=1, ncols=1, **k):
  import numpy as np
  axs = np.empty((nrows, ncols), dtype=object)
  for i in range(nrows):
    for j in range(ncols):
      axs[i, j] = Axes()
  fig = Figure()
  FIGURES.append((fig, [a for row in axs for a in row]))
  if nrows == 1 and ncols == 1:
    return fig, axs[0, 0]
  if nrows == 1 or ncols == 1:
    return fig, axs.reshape(-1)
  return fig, axs
