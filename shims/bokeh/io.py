"""Everything done with figures is recorded in LOG."""
LOG = []


def output_file(filename, title='Bokeh Plot', *args, **kwargs):
    LOG.append(('output_file', filename, title))


def show(obj, *args, **kwargs):
    LOG.append(('show', obj))


def save(obj, *args, **kwargs):
    LOG.append(('save', obj))


def reset_output(*args, **kwargs):
    LOG.append(('reset_output',))


output_notebook = reset_output
