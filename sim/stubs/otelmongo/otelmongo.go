package otelmongo

import "go.mongodb.org/mongo-driver/v2/event"

func NewMonitor(...any) *event.CommandMonitor { return &event.CommandMonitor{} }
