"""t5x.export_lib without a TensorFlow Serving installation, for demos."""
import os
import sys
from unittest import mock

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs  # pylint: disable=g-import-not-at-top

stubs.install(os.getcwd())
for n in ('tensorflow_serving', 'tensorflow_serving.apis',
          'tensorflow_serving.apis.predict_pb2',
          'tensorflow_serving.apis.prediction_log_pb2'):
  sys.modules[n] = mock.MagicMock()
from t5x import export_lib  # pylint: disable=g-import-not-at-top,unused-import
