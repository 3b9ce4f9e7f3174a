from . import clock, triggers, executor, hooks, model, utils, coverage, delay, bundle, logs, debugger, lint  # noqa: F401
