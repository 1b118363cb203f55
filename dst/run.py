import sys
from dst import env
env.pin(sys.argv[2] if len(sys.argv) > 2 else '')
from dst.core import main  # noqa
sys.exit(main())
