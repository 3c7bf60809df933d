"""JSON-level fake transport: sits below the real protocols, above no network at all."""

from __future__ import annotations

import json


def make_transport(host="h", handler=None, **cfg):
    """Return a BaseTransport whose send() awaits handler(request_dict, transport)."""
    from kasa import DeviceConfig
    from kasa.transports import BaseTransport

    class FakeTransport(BaseTransport):
        def __init__(self, *, config):
            super().__init__(config=config)
            self.sent = []
            self.resets = 0
            self.closed = 0

        @property
        def default_port(self):
            return 80

        @property
        def credentials_hash(self):
            return "fakehash"

        async def send(self, request):
            req = json.loads(request)
            self.sent.append(req)
            return await handler(req, self)

        async def close(self):
            self.closed += 1

        async def reset(self):
            self.resets += 1

    return FakeTransport(config=DeviceConfig(host, **cfg))
