"""Harness registry."""
import importlib

REGISTRY = {}


class Harness:
  def __init__(self, fn, prop, name, configs, thorough, bounds, budget, validate, instrument):
    self.fn, self.prop, self.name = fn, prop, name
    self.configs, self.thorough = configs, thorough
    self.bounds, self.budget, self.validate = bounds, budget, validate
    self.instrument = instrument

  def all_configs(self, tier):
    return list(self.configs) + (list(self.thorough) if tier == "thorough" else [])


def harness(prop, configs=({},), thorough=(), bounds="", budget=60, validate=True, instrument=False):
  def deco(fn):
    h = Harness(fn, prop, fn.__name__, configs, thorough, bounds, budget, validate, instrument)
    REGISTRY.setdefault(prop, {})[fn.__name__] = h
    return fn
  return deco


def load(prop):
  importlib.import_module("checks." + prop.lower())
  return REGISTRY[prop]
