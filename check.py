#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property of quanted/esat from its source."""
import sys
from esatlint.runner import main
sys.exit(main(sys.argv[1:]))
