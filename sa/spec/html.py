"""A stand-in for a parsed page: the texts of its tags, in order."""


class Tag:
    def __init__(self, text, attrs=None):
        self.contents = [text]
        self.text = text
        self.string = text
        self.attrs_ = attrs

    def get_text(self):
        return self.text

    def get(self, name, default=None):
        return self.attrs_.get(name, default)

    def __getitem__(self, name):
        return self.attrs_[name]


class Page:
    def __init__(self, tags):
        self.tags = tags

    def find_all(self, name, **kwargs):
        return self.tags[name]

    def select(self, name):
        return self.tags[name]

    def find(self, name, **kwargs):
        return self.tags[name][0]
