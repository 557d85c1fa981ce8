#!/opt/venv/bin/python
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
import threading
import torchsym  # noqa: E402  (path set-up)
threading.stack_size(512 * 1024 * 1024)
from torchsym.run import main  # noqa: E402
sys.exit(main(sys.argv[1:]))
