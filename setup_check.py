import subprocess,sys
subprocess.check_call(['/usr/bin/clang++-18','--version'],stdout=subprocess.DEVNULL)
subprocess.check_call(['g++','--version'],stdout=subprocess.DEVNULL)
import z3,cvc5
print('ok')
