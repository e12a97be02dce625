import os
REPO = os.environ.get('HAPUA_REPO', '/repo')
