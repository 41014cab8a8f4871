module github.com/meirf/gopart

go 1.21
