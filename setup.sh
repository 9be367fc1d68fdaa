#!/bin/bash
true
