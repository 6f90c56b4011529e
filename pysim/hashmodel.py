"""A model whose next token is a pure function of the token history it can see
through the KV cache (and the recurrent state), plus the pure-Python reference.

Each KV row holds [token, position, h_lo, h_hi] where h is a hash chained from
the previous row *read back through req_to_token*.  If any row a request reads
is wrong (another request's, freed, overwritten, wrong position) the model sees
an inconsistent chain and emits garbage, so a wrong cache line becomes a wrong
token.
"""
import sys
import types

import torch

from .fake_hf import V, EOS, MARK
from .kernel import cur_sim

M = (1 << 44) - 17
A1, C1 = 6364136223846793, 1442695040888963
H0 = 0x5A5A1234


def chain(h, tok, pos):
    return ((h ^ (tok + 1)) * A1 + pos * 1009 + C1) % M


def hist_hash(tokens):
    h = H0
    for p, t in enumerate(tokens):
        h = chain(h, t, p)
    return h


def top_from(h, eos_p=12):
    """(a, b, forced) describing the logit permutation for digest h."""
    x = (h * 2654435761) % M
    a = 1 + x % (V - 1)
    b = (x // 97) % V
    forced = EOS if eos_p and (x // 9409) % eos_p == 0 else None
    return a, b, forced


# Scripted output: a prompt that contains MARK, id, MARK makes the model
# continue with the tokens of SCRIPTS[id] (used to steer text content).
SCRIPTS = {}


def script_next(tokens):
    n = len(tokens)
    for i in range(n - 3, -1, -1):
        if tokens[i] == MARK and tokens[i + 2] == MARK:
            s = SCRIPTS.get(tokens[i + 1])
            if s is None:
                continue
            start = i + 3
            # prompt tail after the marker ends with another MARK
            try:
                j = tokens.index(MARK, start)
            except ValueError:
                return None
            k = n - (j + 1)
            return s[k] if k < len(s) else EOS
    return None


def logits_row(h, tokens=None, eos_p=12):
    """List of V distinct integer logits."""
    a, b, forced = top_from(h, eos_p)
    row = [(a * i + b) % V for i in range(V)]
    if tokens is not None and SCRIPTS:
        s = script_next(tokens)
        if s is not None:
            forced = s
        elif forced is not None and False:
            pass
    if forced is not None:
        j = row.index(V - 1)
        row[j], row[forced] = row[forced], V - 1
    return row


def ref_logits(tokens, eos_p=12):
    return logits_row(hist_hash(tokens), tokens, eos_p)


class HashModel(torch.nn.Module):
    def __init__(self, hf_config, quant_config=None):
        super().__init__()
        self.cfg = hf_config
        tc = getattr(hf_config, "text_config", hf_config)
        self.window = getattr(tc, "sliding_window", None)
        self.eos_p = getattr(tc, "sim_eos_p", 12)
        n_gdn = getattr(tc, "sim_gdn_layers", 0)
        if n_gdn:
            self.num_gdn_layers = n_gdn
            self.full_attn_layer_ids = {0}

    def load_weights(self, it):
        from .fake_hf import boot_error
        boot_error("model")
        return None

    # -- row access
    def forward(self, input_ids, positions, fb):
        sim = cur_sim()
        ids = input_ids.tolist()
        pos = positions.tolist()
        slots = fb.req_pool_indices.tolist()
        seq = fb.seq_lens.tolist()
        loc = fb.out_cache_loc.tolist()
        kv = fb.token_to_kv_pool
        r2t = fb.req_to_token_pool.req_to_token
        if min(ids) < 0 or max(ids) >= V:
            raise IndexError("index out of range in self")
        mm = bool(getattr(getattr(self.cfg, "text_config", self.cfg), "sim_mm", False))
        feats = None
        if mm and fb.forward_mode.is_extend():
            feats = self._images(fb, ids)
        mdeltas = getattr(fb, "mrope_position_deltas", None)
        new_deltas = []
        gdn = sim.objs.get("GDNPool") if sim is not None and hasattr(self, "num_gdn_layers") else None
        bs = fb.batch_size
        if fb.forward_mode.is_extend():
            lens = fb.extend_seq_lens.tolist()
        else:
            lens = [1] * bs
        if sim is not None:
            sim.forward_hook(fb, ids, pos, slots, seq, lens)
        out = []
        off = 0
        K = kv.get_key_buffer(0)
        Vb = kv.get_value_buffer(0)
        for r in range(bs):
            n, L, slot = lens[r], seq[r], slots[r]
            table = r2t[slot, :L].to(torch.long)
            my_ids, my_pos, my_loc = ids[off:off + n], pos[off:off + n], loc[off:off + n]
            off += n
            start = L - n
            # previous hash, read back through the mapping
            bad = False
            if start > 0:
                prow = K[table[start - 1]].reshape(-1).tolist()
                h = _join(prow)
                if prow[1] != start - 1:
                    bad = True
            else:
                h = H0
            g = None
            if gdn is not None:
                g = self._gdn_read(gdn, slot)
                if g[1] != start:
                    bad = True
                    g = (g[0] ^ 0x55555, start)
            rows = []
            if mm:
                if fb.forward_mode.is_extend():
                    my_feats = feats[off - n:off]
                    new_deltas.append(-sum(1 for f in my_feats if f is not None))
                    my_ids = [t if f is None else t + V * (1 + f) for t, f in zip(my_ids, my_feats)]
                else:
                    hist = K[table[:start]].reshape(-1, 4)[:, 0].tolist()
                    if mdeltas is None or int(mdeltas[r]) != -sum(1 for x in hist if x >= V):
                        bad = True
                        if sim is not None:
                            sim.probe("model-saw-wrong-image-offset")
            for i, t in enumerate(my_ids):
                p = my_pos[i] if i < len(my_pos) else -1
                if gdn is not None:
                    gh = chain(g[0], t, g[1])
                    g = (gh, g[1] + 1)
                h = chain(h, t, p)
                if gdn is not None and (gh != h):
                    bad = True
                hh = h if not bad else chain(h, 77, p)
                rows.append([float(t), float(p), float(hh & 0x3FFFFF), float(hh >> 22)])
                h = hh
                if p != start + i:
                    bad = True
            if gdn is not None:
                self._gdn_write(gdn, slot, g, my_ids)
            if rows:
                t_rows = torch.tensor(rows, dtype=K.dtype).reshape(n, 1, 4)
                kv.set_kv_buffer(0, torch.tensor(my_loc, dtype=torch.long), t_rows, t_rows + 0)
            # read everything visible back through the mapping
            lo = 0 if not self.window else max(0, L - self.window)
            seen = K[table[lo:]].reshape(-1, 4).tolist()
            seenv = Vb[table[lo:]].reshape(-1, 4).tolist()
            hp = H0 if lo == 0 else None
            if lo > 0 and seen:
                hp = None
            toks = []
            for i, row in enumerate(seen):
                p = lo + i
                if row[1] != p or row != seenv[i] or not 0 <= row[0] < V * 64:
                    bad = True
                    break
                hr = _join(row)
                if hp is not None and chain(hp, int(row[0]), p) != hr:
                    bad = True
                    break
                hp = hr
                toks.append(int(row[0]))
            if bad or len(seen) != L - lo:
                hb = h
                for row in seen:
                    hb = chain(hb, int(abs(row[0])) % 1000 if row[0] == row[0] else 7, int(abs(row[1])) % 1000
                               if row[1] == row[1] else 3)
                if sim is not None:
                    sim.probe("model-saw-inconsistent-cache")
                row = logits_row(chain(hb, 96, 3), None, 0)
            else:
                row = logits_row(hp, toks if lo == 0 else None, self.eos_p)
            out.append((row, n))
        if mm and fb.forward_mode.is_extend():
            fb.mrope_position_deltas = torch.tensor(new_deltas, dtype=torch.int64)
        if fb.forward_mode.is_extend():
            big = torch.zeros((sum(lens), V), dtype=torch.float32)
            o = 0
            for row, n in out:
                if n:
                    big[o + n - 1] = torch.tensor(row, dtype=torch.float32)
                o += n
        else:
            big = torch.tensor([row for row, _ in out], dtype=torch.float32)
        if sim is not None:
            sim.compute(len(ids))
        return big

    def _images(self, fb, ids):
        """Image value per token, assigned in order as the real models do."""
        pv = getattr(fb, "pixel_values", None)
        if pv is None:
            return [None] * len(ids)
        n = sum(1 for t in ids if t == 96)
        if n != pv.shape[0]:
            raise ValueError("Image features and image tokens do not match, tokens: %d, features: %d" % (n, pv.shape[0]))
        from .kernel import cur_sim
        if cur_sim() is not None:
            cur_sim().probe("image-prompt")
        it = iter(pv[:, 0].tolist())
        return [int(next(it)) if t == 96 else None for t in ids]

    def _gdn_read(self, pool, slot):
        st = pool.recurrent_state[:, slot].reshape(pool.recurrent_state.shape[0], -1)
        cv = pool.conv_state[:, slot].reshape(pool.conv_state.shape[0], -1)
        vals = st[:, :4].tolist()
        lo, hi, cnt, _ = vals[0]
        h = int(lo) + (int(hi) << 22)
        for v in vals[1:]:
            if v != vals[0]:
                h ^= 0x111
        if cnt == 0 and h == 0:
            if any(x != 0 for x in cv.reshape(-1).tolist()):
                return (0x222, 0)
            return (H0, 0)
        exp = float(h % 509)
        if any(x != exp for x in cv[:, 0].tolist()):
            h ^= 0x333
        return (h, int(cnt))

    def _gdn_write(self, pool, slot, g, ids):
        h, cnt = g
        st = pool.recurrent_state
        n = st.shape[0]
        vals = torch.tensor([float(h & 0x3FFFFF), float(h >> 22), float(cnt), 1.0])
        for l in range(n):
            st[l, slot].view(-1)[:4] = vals
            pool.conv_state[l, slot].view(-1)[0] = float(h % 509)


def _join(row):
    try:
        return int(row[2]) + (int(row[3]) << 22)
    except (ValueError, OverflowError):
        return 12345


class _NullBackend:
    def __init__(self, *a, **kw):
        pass

    def init_forward_metadata(self, fb):
        pass

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **kw: None


def install():
    """Stub attention backends and register the model class."""
    for name, cls in (("flashinfer_backend", "FlashInferAttnBackend"),
                      ("gdn_backend", "GDNAttnBackend"),
                      ("hybrid_backend", "HybridAttnBackend")):
        m = types.ModuleType("pymllm.layers.attention." + name)
        setattr(m, cls, _NullBackend)
        sys.modules["pymllm.layers.attention." + name] = m
    m = types.ModuleType("pysim_models")
    m.SimHashModel = HashModel
    sys.modules["pysim_models"] = m
    import pymllm.models as pm
    pm._MODEL_REGISTRY["SimHashModel"] = ("pysim_models", "SimHashModel")
