"""Stand-in for `transformers`: a small byte-level tokenizer and config.

Some pieces are single bytes of multi-byte characters, so decoding a prefix of
the output can end in an incomplete character (U+FFFD), as with real byte-level
BPE tokenizers.
"""
import sys
import types
import importlib.machinery

EOS, BOS, PAD, MARK = 0, 1, 2, 3
PIECES = [b"<eos>", b"<bos>", b"<pad>", b"<|m|>"]
PIECES += [bytes([c]) for c in range(ord("a"), ord("z") + 1)]
PIECES += [b" ", b"\n"]
PIECES += [bytes([c]) for c in b'0123456789{}":,[]/<>=_']
PIECES += [bytes([c]) for c in b"\xe4\xbd\xa0\xf0\x9f\x98\x80\xc3\xa9"]
PIECES += [b"think", b"<think>", b"</think>", b"<tool_call>", b"</tool_call>", b"tool",
           b"</", b"name", b"arguments", b"hello", b" world", "\u4f60".encode(), "\u597d".encode(),
           b"\xe4\xbd", b"\xa0x", b"\xf0\x9f", b"\x98\x80", "\u00e9".encode(), b"call", b"ing",
           b"the", b"{\"", b"\": "]
V = 97
while len(PIECES) < V:
    PIECES.append(b"w%d" % len(PIECES))
PIECES = PIECES[:V]
SPECIAL = 4
_BY_LEN = sorted(((p, i) for i, p in enumerate(PIECES)), key=lambda x: (-len(x[0]), x[1]))
_FIRST = {}
for _p, _i in _BY_LEN:
    _FIRST.setdefault(_p[0], []).append((_p, _i))


def encode(text):
    b = text.encode("utf-8", "surrogatepass")
    out = []
    i = 0
    while i < len(b):
        for p, t in _FIRST.get(b[i], ()):
            if b.startswith(p, i):
                out.append(t)
                i += len(p)
                break
        else:
            out.append(SPECIAL + (b[i] * 7) % (V - SPECIAL))
            i += 1
    return out


def decode(ids, skip_special_tokens=False):
    return b"".join(PIECES[i] for i in ids if not (skip_special_tokens and i < SPECIAL)
                    ).decode("utf-8", "replace")


class Encoding(dict):
    def __getattr__(self, k):
        return self[k]


class Tokenizer:
    eos_token_id = EOS
    eos_token = "<eos>"
    bos_token_id = BOS
    pad_token_id = PAD
    vocab_size = V
    all_special_ids = [0, 1, 2, 3]

    def __init__(self):
        self.padding_side = "right"
        self.chat_template = "sim"

    def __len__(self):
        return V

    def __call__(self, text, add_special_tokens=True, truncation=False, max_length=None,
                 return_attention_mask=True, **kw):
        if not isinstance(text, str):
            raise ValueError("text input must be of type `str`")
        from .kernel import cur_sim
        s = cur_sim()
        if s is not None:
            bad = getattr(s, "poison_text", None)
            if bad is not None and bad in text:
                s.fault("tokenizer-exception")
                raise ValueError("tokenizer failure injected")
        ids = encode(text)
        if truncation and max_length is not None:
            ids = ids[:max_length]
        e = Encoding(input_ids=ids)
        if return_attention_mask:
            e["attention_mask"] = [1] * len(ids)
        return e

    def encode(self, text, **kw):
        return encode(text)

    def decode(self, ids, skip_special_tokens=False, **kw):
        if isinstance(ids, int):
            ids = [ids]
        if hasattr(ids, "tolist"):
            ids = ids.tolist()
        return decode(ids, skip_special_tokens)

    def batch_decode(self, seqs, **kw):
        return [self.decode(s, **kw) for s in seqs]

    def convert_ids_to_tokens(self, i):
        return PIECES[i].decode("latin1")

    def apply_chat_template(self, messages, tokenize=True, add_generation_prompt=False, **kw):
        out = []
        for m in messages:
            c = m.get("content")
            if isinstance(c, list):
                c = "".join(p.get("text", "") for p in c if p.get("type") == "text")
            out.append("%s:%s\n" % (m.get("role"), c or ""))
        if add_generation_prompt:
            out.append("a:")
        s = "".join(out)
        return encode(s) if tokenize else s


def boot_error(what):
    """Start-up failure injected into the process that loads `what`."""
    from .kernel import cur_sim
    s = cur_sim()
    if s is not None and s.cur is not None and getattr(s.cur.proc, "boot_error", None):
        s.fault("start-up-exception")
        raise s.cur.proc.boot_error


class AutoTokenizer:
    @classmethod
    def from_pretrained(cls, *a, **kw):
        boot_error("tokenizer")
        return Tokenizer()


VSTART, IMG = 95, 96


def expand_images(images, ids):
    """Prompt ids with one block of placeholder tokens per image in front."""
    out = []
    for im in images:
        out += [VSTART] + [IMG] * im["n"]
    return out + list(ids)


class MMProcessor:
    """Image processor stand-in: an image is {"n": tokens, "v": value}."""

    def __call__(self, images=None, text=None, return_tensors=None):
        import torch
        if not isinstance(text, str):
            raise ValueError("text input must be of type `str`")
        ids = expand_images(images, encode(text))
        return {"input_ids": torch.tensor([ids]),
                "pixel_values": torch.tensor([[float(im["v"])] * 2 for im in images for _ in range(im["n"])]),
                "image_grid_thw": torch.tensor([[1, 1, im["n"]] for im in images])}


class AutoProcessor:
    @classmethod
    def from_pretrained(cls, *a, **kw):
        from .kernel import cur_sim
        s = cur_sim()
        if s is not None and s.cfg.get("mm"):
            return MMProcessor()
        raise OSError("no processor")


class GenerationConfig:
    @classmethod
    def from_pretrained(cls, *a, **kw):
        raw = getattr(_next_cfg[0], "sim_generation_eos", None)
        if raw is None:
            raise OSError("no generation config")
        g = cls()
        g.eos_token_id = raw
        return g


class SimHFConfig:
    """Plain picklable model config."""

    def __init__(self, **kw):
        self.architectures = ["SimHashModel"]
        self.model_type = "sim"
        self.num_hidden_layers = 1
        self.num_attention_heads = 1
        self.num_key_value_heads = 1
        self.head_dim = 4
        self.hidden_size = 4
        self.vocab_size = V
        self.max_position_embeddings = 256
        self.eos_token_id = EOS
        self.__dict__.update(kw)

    def to_dict(self):
        return dict(self.__dict__)


_next_cfg = [None]


class AutoConfig:
    @classmethod
    def from_pretrained(cls, *a, **kw):
        return _next_cfg[0] or SimHFConfig()


def install():
    m = types.ModuleType("transformers")
    m.__spec__ = importlib.machinery.ModuleSpec("transformers", None)
    m.__version__ = "sim"
    m.AutoTokenizer, m.AutoProcessor, m.AutoConfig = AutoTokenizer, AutoProcessor, AutoConfig
    m.GenerationConfig = GenerationConfig
    m.PretrainedConfig = SimHFConfig
    m.PreTrainedTokenizerBase = Tokenizer
    sys.modules["transformers"] = m
