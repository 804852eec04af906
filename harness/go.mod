module verif/harness

go 1.26.0

require (
	github.com/ElectroUnion/egts-gate v0.0.0
	github.com/golang/protobuf v1.5.2
	github.com/sirupsen/logrus v1.8.1
	gopkg.in/vmihailenco/msgpack.v2 v2.9.1
	gopkg.in/yaml.v2 v2.4.0
)

require (
	github.com/cespare/xxhash/v2 v2.1.2 // indirect
	github.com/dgryski/go-rendezvous v0.0.0-20200823014737-9f7001d12a5f // indirect
	github.com/go-redis/redis/v8 v8.11.5 // indirect
	github.com/golang/snappy v0.0.3 // indirect
	github.com/lib/pq v1.1.1 // indirect
	github.com/nats-io/nats.go v1.13.1-0.20220121202836-972a071d373d // indirect
	github.com/nats-io/nkeys v0.3.0 // indirect
	github.com/nats-io/nuid v1.0.1 // indirect
	github.com/nsqio/go-nsq v1.1.0 // indirect
	github.com/streadway/amqp v0.0.0-20190404075320-75d898a42a94 // indirect
	github.com/tarantool/go-tarantool v0.0.0-20190330192518-aaa93c4bdc35 // indirect
	golang.org/x/crypto v0.0.0-20220112180741-5e0467b6c7ce // indirect
	golang.org/x/sys v0.0.0-20220111092808-5a964db01320 // indirect
	google.golang.org/protobuf v1.26.0 // indirect
)

replace github.com/ElectroUnion/egts-gate => /repo
