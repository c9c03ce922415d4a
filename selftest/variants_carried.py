from variants import bug, same
WR, AN, ST, DA, T = 'opencorpora_dict/wrapper.py', 'analyzer.py', 'opencorpora_dict/storage.py', 'dawg.py', 'tokenizers.py'
K = '''        for word, (para_id, idx) in self.words.iteritems(prefix):
            tag = self.build_tag_info(para_id, idx)
            normal_form = self.build_normal_form(para_id, idx, word)
'''
bug('A31', 'tags remembered by form number', (WR, K, '''        tags = {}
        for word, (para_id, idx) in self.words.iteritems(prefix):
            if idx in tags:
                tag = tags[idx]
            else:
                tag = tags[idx] = self.build_tag_info(para_id, idx)
            normal_form = self.build_normal_form(para_id, idx, word)
'''))
bug('A31', 'paradigm dedup', (WR, K, '''        last = None
        for word, (para_id, idx) in self.words.iteritems(prefix):
            if (word, para_id) == last:
                continue
            last = (word, para_id)
            tag = self.build_tag_info(para_id, idx)
            normal_form = self.build_normal_form(para_id, idx, word)
'''))
same('A31', 'tags remembered by record', (WR, K, '''        tags = {}
        for word, (para_id, idx) in self.words.iteritems(prefix):
            if (para_id, idx) in tags:
                tag = tags[para_id, idx]
            else:
                tag = tags[para_id, idx] = self.build_tag_info(para_id, idx)
            normal_form = self.build_normal_form(para_id, idx, word)
'''))
same('A31', 'word and record remembered', (WR, K, '''        last, normal_form = None, None
        for word, (para_id, idx) in self.words.iteritems(prefix):
            tag = self.build_tag_info(para_id, idx)
            if last != (word, para_id, idx):
                normal_form = self.build_normal_form(para_id, idx, word)
            last = (word, para_id, idx)
'''))
bug('A16', 'signed count', (ST, 'paradigm_len = struct.unpack(str("<H"), f.read(2))[0]', 'paradigm_len = struct.unpack(str("<h"), f.read(2))[0]'))
bug('A20', 'rounded', (DA, "return self.get(dawg_key, 0) / self.MULTIPLIER", "return round(self.get(dawg_key, 0), -2) / self.MULTIPLIER"))
bug('A20', 'floor', (DA, "return self.get(dawg_key, 0) / self.MULTIPLIER", "return max(self.get(dawg_key, 0), 1) / self.MULTIPLIER"))
same('A20', 'get variable', (DA, "return self.get(dawg_key, 0) / self.MULTIPLIER", "number = self.get(dawg_key, 0)\n        return number / self.MULTIPLIER"))
bug('A23', 'apostrophe', (T, "r'([^\\w_-]|[+])'", '''r"([^\\w_'-]|[+])"'''))
bug('A23', 'marks', (T, "[^\\w_-]", "[^\\w\\u0301_-]"))
