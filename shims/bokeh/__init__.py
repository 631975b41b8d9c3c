"""Stand-in for bokeh: figures which record what is drawn on them."""
from bokeh import io, plotting, models  # noqa: F401
