"""Files whose lines are stalled at more often, per property."""

FOCUS = {
    "C01": (
        "vtelem/stream/writer.py",
        "vtelem/daemon/queue.py",
        "vtelem/classes/metered_queue.py",
    ),
    "C02": (
        "vtelem/channel/environment.py",
        "vtelem/channel/framer.py",
        "vtelem/channel/__init__.py",
        "vtelem/frame/__init__.py",
        "vtelem/frame/channel.py",
        "vtelem/parsing/frames.py",
        "vtelem/parsing/encapsulation.py",
    ),
    "C03": (
        "vtelem/classes/type_primitive.py",
        "vtelem/classes/event_queue.py",
        "vtelem/channel/__init__.py",
        "vtelem/channel/framer.py",
        "vtelem/frame/channel.py",
    ),
    "C04": (
        "vtelem/classes/type_primitive.py",
        "vtelem/channel/__init__.py",
        "vtelem/channel/environment.py",
        "vtelem/classes/metered_queue.py",
        "vtelem/daemon/__init__.py",
    ),
    "C05": (
        "vtelem/channel/group.py",
        "vtelem/channel/group_registry.py",
        "vtelem/channel/framer.py",
        "vtelem/channel/environment.py",
    ),
    "C06": (
        "vtelem/classes/time_entity.py",
        "vtelem/channel/group.py",
        "vtelem/channel/environment.py",
        "vtelem/telemetry/environment.py",
        "vtelem/daemon/__init__.py",
        "vtelem/classes/state_machine.py",
    ),
    "C07": (
        "vtelem/message/framer.py",
        "vtelem/message/cache.py",
        "vtelem/frame/message.py",
        "vtelem/frame/fields.py",
        "vtelem/parsing/frames.py",
    ),
    "C08": (
        "vtelem/message/cache.py",
        "vtelem/classes/data_cache.py",
    ),
    "C09": (
        "vtelem/client/tcp.py",
        "vtelem/client/socket.py",
        "vtelem/client/__init__.py",
        "vtelem/frame/processor.py",
        "vtelem/classes/byte_buffer.py",
        "vtelem/parsing/encapsulation.py",
    ),
    "C10": (
        "vtelem/client/udp.py",
        "vtelem/client/socket.py",
        "vtelem/client/__init__.py",
        "vtelem/parsing/encapsulation.py",
        "vtelem/parsing/frames.py",
        "vtelem/frame/processor.py",
    ),
    "C11": (
        "vtelem/client/file.py",
        "vtelem/stream/writer.py",
        "vtelem/frame/processor.py",
        "vtelem/client/__init__.py",
    ),
    "C12": (
        "vtelem/daemon/__init__.py",
        "vtelem/daemon/manager.py",
        "vtelem/daemon/synchronous.py",
        "vtelem/daemon/queue.py",
        "vtelem/enums/daemon.py",
    ),
    "C13": (
        "vtelem/daemon/synchronous.py",
        "vtelem/daemon/__init__.py",
        "vtelem/daemon/telemetry.py",
    ),
    "C14": (
        "vtelem/classes/time_keeper.py",
        "vtelem/classes/time_entity.py",
        "vtelem/telemetry/server.py",
    ),
    "C15": (
        "vtelem/daemon/command_queue.py",
        "vtelem/factories/telemetry_environment.py",
        "vtelem/factories/daemon_manager.py",
        "vtelem/factories/udp_client_manager.py",
        "vtelem/daemon/queue.py",
    ),
    "C16": (
        "vtelem/classes/state_machine.py",
        "vtelem/classes/state.py",
        "vtelem/channel/group.py",
    ),
    "C17": (
        "vtelem/registry/__init__.py",
        "vtelem/registry/enum.py",
        "vtelem/registry/type.py",
        "vtelem/registry/service.py",
        "vtelem/channel/registry.py",
        "vtelem/channel/group_registry.py",
        "vtelem/telemetry/environment.py",
    ),
    "C18": (
        "vtelem/daemon/tcp_telemetry.py",
        "vtelem/stream/writer.py",
        "vtelem/client/tcp.py",
    ),
    "C19": (
        "vtelem/daemon/websocket.py",
        "vtelem/daemon/websocket_telemetry.py",
        "vtelem/daemon/event_loop.py",
        "vtelem/factories/websocket_daemon.py",
        "vtelem/client/websocket.py",
    ),
    "C20": (
        "vtelem/classes/http_request_mapper.py",
        "vtelem/daemon/http.py",
        "vtelem/factories/telemetry_server.py",
        "vtelem/daemon/command_queue.py",
    ),
    "C21": (
        "vtelem/telemetry/server.py",
        "vtelem/daemon/manager.py",
        "vtelem/factories/telemetry_server.py",
        "vtelem/daemon/telemetry.py",
        "vtelem/stream/writer.py",
    ),
    "C22": (
        "vtelem/classes/udp_client_manager.py",
        "vtelem/factories/udp_client_manager.py",
        "vtelem/stream/writer.py",
        "vtelem/mtu.py",
    ),
    "C23": (
        "vtelem/parsing/encapsulation.py",
        "vtelem/parsing/frames.py",
        "vtelem/frame/__init__.py",
        "vtelem/classes/byte_buffer.py",
    ),
    "C24": (
        "vtelem/app.py",
        "vtelem/entry.py",
        "vtelem/daemon/__init__.py",
        "vtelem/daemon/http.py",
        "vtelem/telemetry/server.py",
    ),
    "C25": (
        "vtelem/telemetry/server.py",
        "vtelem/telemetry/environment.py",
        "vtelem/stream/writer.py",
        "vtelem/daemon/tcp_telemetry.py",
        "vtelem/daemon/websocket_telemetry.py",
        "vtelem/client/tcp.py",
        "vtelem/client/udp.py",
        "vtelem/client/file.py",
        "vtelem/daemon/telemetry.py",
    ),
}
