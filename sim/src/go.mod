module verifsim

go 1.26

require (
	github.com/patrickmn/go-cache v2.1.0+incompatible
	github.com/redis/go-redis/v9 v9.21.0
	go.mongodb.org/mongo-driver/v2 v2.7.0
)
