"""Nothing is built: the checks import /repo's working tree. Only tests that they can."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for f in os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks')):
    if f.endswith('.py'):
        path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks', f)
        compile(open(path, encoding='utf-8').read(), path, 'exec')
print('ok')
