from .symbolic_simulator import SymbolicSimulator
from .trackers import MeasurementTrackingBackend
