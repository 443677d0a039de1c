# -*- coding: utf-8 -*-
import importlib
import json
import sys

from . import common

a = json.loads(sys.argv[1])
a['module'] = importlib.import_module('vf.' + a['module'])
common.worker(**a)
