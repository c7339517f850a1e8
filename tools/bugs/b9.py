B = 'brainstorm/'
P = B + 'handlers/pycuda_handler.py'
GPU = '''
import atexit, os, shutil, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
os.environ['EMU_CACHE'] = tempfile.mkdtemp()
atexit.register(shutil.rmtree, os.environ['EMU_CACHE'], True)
sys.path.insert(0, os.path.join(here, 'device'))     # PyCUDA on an emulated device
import numpy as np
from brainstorm.handlers import NumpyHandler, PyCudaHandler
from pycuda import emu
h, c = PyCudaHandler(seed=3), NumpyHandler(np.float32)
def both(name, *args):
    """call the operation on both handlers, arrays given as numpy arrays; the arrays afterwards"""
    g = [h.create_from_numpy(a) if isinstance(a, np.ndarray) else a for a in args]
    n = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
    getattr(h, name)(*g)
    getattr(c, name)(*n)
    for x, y in zip(g, n):
        if isinstance(y, np.ndarray):
            assert np.allclose(h.get_numpy_copy(x), y, rtol=1e-4, atol=1e-5), (name, h.get_numpy_copy(x), y)
r = np.random.RandomState(1)
f = lambda *s: r.randn(*s).astype(np.float32)
'''
BUGS = [
 dict(id='c26_softmax_barrier', property='C26', **{'with': ['device']},
  edits=[(P, """            tmp[blockIdx.x] = cur_max;
        }
        __syncthreads();

""", """            tmp[blockIdx.x] = cur_max;
        }

""")],
  needs='threads of one row that go on before the first has stored the row maximum',
  breaks='the softmax reads the maximum of its row while another thread still computes it',
  demo=GPU + """
for i in range(10):
    emu.seed(i)
    both('softmax_m', f(5, 40), np.zeros((5, 40), np.float32))
"""),
 dict(id='c26_col2im_overwrite', property='C26', **{'with': ['device']},
  edits=[(P, "        data_im[index] += val;\n", "        data_im[index] = val;\n")],
  needs='a convolution whose input already carries gradients of another layer',
  breaks='the backward pass of a convolution discards what other layers added to the gradient of the same input',
  demo=GPU + """
x, w = f(2, 5, 6, 2), f(3, 3, 3, 2)
for before in (np.zeros_like(x), f(2, 5, 6, 2)):
    both('conv2d_backward_batch', x, w, 0, (1, 1), before, f(2, 3, 4, 3), f(*w.shape), f(3))
"""),
 dict(id='c26_softmax_shift', property='C26', **{'with': ['device']},
  edits=[(P, """        float cur_max = -FLT_MAX;
        float val = 0;
""", """        float cur_max = 0;
        float val = 0;
"""), (P, "            cur_max = -FLT_MAX;\n            for (unsigned int i = 0; i < 32; i++) {\n",
  "            for (unsigned int i = 1; i < 32; i++) {\n")],
  needs='rows in which every entry is far below zero',
  breaks='the softmax of such a row is 0 / 0',
  demo=GPU + """
for low in (0, -50, -200):
    both('softmax_m', f(4, 7) + np.float32(low), np.zeros((4, 7), np.float32))
"""),
 dict(id='c26_col2im_edge', property='C26', **{'with': ['device']},
  edits=[(P, "        int w_col_end = min(w / stride_w + 1, width_col);\n        int h_col_start", "        int w_col_end = w / stride_w + 1;\n        int h_col_start")],
  needs='a convolution whose last window ends before the image does, or with padding, in the backward pass',
  breaks='the gradient of pixels at the right edge includes windows that do not exist',
  demo=GPU + """
for k, p, s in ((3, 0, 2), (2, 1, 1), (2, 0, 3)):
    o = (7 + 2 * p - k) // s + 1
    x, w = f(2, 7, 8, 2), f(3, k, k, 2)
    o2 = (8 + 2 * p - k) // s + 1
    both('conv2d_backward_batch', x, w, p, (s, s), f(*x.shape), f(2, o, o2, 3), f(*w.shape), f(3))
"""),
 dict(id='c26_pool_mean', property='C26', **{'with': ['device']},
  edits=[(P, """            hstart = max(hstart, 0);
            wstart = max(wstart, 0);
            int pool_size = (hend - hstart) * (wend - wstart);
""", """            int pool_size = (hend - hstart) * (wend - wstart);
""")],
  needs='average pooling with padding, backward pass',
  breaks='windows that reach over the top or left edge pass back too little',
  demo=GPU + """
for p in (0, 1):
    x = f(2, 5, 6, 2)
    o = ((5 + 2 * p - 3) // 2 + 1, (6 + 2 * p - 3) // 2 + 1)
    y = f(2, o[0], o[1], 2)
    both('avgpool2d_backward_batch', x, (3, 3), y, p, (2, 2), f(*x.shape), f(*y.shape))
"""),
 dict(id='c26_mult_add_mv_tmp', property='C26', **{'with': ['device']},
  edits=[(P, """            tmp = self.allocate(out.shape)
            cumisc.mult_matvec(m, v, out=tmp)
            self.add_tt(tmp, out, out=out)
""", """            cumisc.mult_matvec(m, v, out=m)
            self.add_tt(m, out, out=out)
""")],
  needs='the matrix handed to the operation is used again afterwards (peepholes of an LSTM read it once more)',
  breaks='the operation leaves its product in its input matrix',
  demo=GPU + """
both('mult_add_mv', f(4, 3), f(1, 3), f(4, 3))
both('mult_add_mv', f(4, 3), f(4, 1), f(4, 3))
"""),
]
